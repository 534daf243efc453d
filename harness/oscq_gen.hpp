// Device trees with everything that the OSCQuery format gives, and their comparison.
#pragma once
#include "gen_value.hpp"
#include "vf.hpp"
#include <ossia/detail/json.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/common/extended_types.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/oscquery/detail/json_parser.hpp>
#include <ossia/network/oscquery/detail/json_writer.hpp>
#include <deque>

using namespace ossia;
using namespace ossia::net;
namespace oq = ossia::oscquery;

namespace
{
const std::vector<unit_t>& all_units()
{
  static const std::vector<unit_t> v{meter_u{}, kilometer_u{}, decimeter_u{}, centimeter_u{}, millimeter_u{}, micrometer_u{}, nanometer_u{}, picometer_u{}, inch_u{}, foot_u{}, mile_u{}, cartesian_3d_u{}, cartesian_2d_u{}, spherical_u{}, polar_u{}, opengl_u{}, cylindrical_u{}, meter_per_second_u{}, miles_per_hour_u{}, kilometer_per_hour_u{}, knot_u{}, foot_per_second_u{}, foot_per_hour_u{}, quaternion_u{}, euler_u{}, axis_u{}, degree_u{}, radian_u{}, argb_u{}, rgba_u{}, rgb_u{}, bgr_u{}, argb8_u{}, rgba8_u{}, hsv_u{}, cmy8_u{}, xyz_u{}, linear_u{}, midigain_u{}, decibel_u{}, decibel_raw_u{}, second_u{}, bark_u{}, bpm_u{}, cent_u{}, frequency_u{}, mel_u{}, midi_pitch_u{}, millisecond_u{}, playback_speed_u{}};
  return v;
}

float num(vf::Case& c)
{
  if(c.chance(1, 40))
    return c.pick({INFINITY, -INFINITY, -0.f, 3.4e38f, 1e-45f});
  return c.chance(1, 3) ? c.f32() : (float)c.range(-40, 40) / 8.f;
}

std::string text(vf::Case& c)
{
  if(c.chance(1, 4))
    return c.bytes(10);
  return c.str(10, "abc \"'\\,[]:/{}\t\n~#\x7f");
}

ossia::value scalar(vf::Case& c, int depth);
// A list which OSC type tags do not confuse with something else
ossia::value list(vf::Case& c, int depth)
{
  for(;;)
  {
    std::vector<ossia::value> l;
    for(std::size_t n = 0; c.more(n, 6, 3); n++)
      l.push_back(scalar(c, depth + 1));
    const bool floats = std::all_of(l.begin(), l.end(), [](auto& v) { return v.get_type() == val_type::FLOAT; });
    if(floats && l.size() >= 2 && l.size() <= 4)
      continue;
    if(l.size() <= 1 && depth == 0)
      continue;
    return l;
  }
}
template <std::size_t N>
std::array<float, N> vec(vf::Case& c)
{
  std::array<float, N> a;
  for(auto& f : a)
    f = num(c);
  return a;
}
ossia::value gen(vf::Case& c, val_type t, int depth = 0)
{
  switch(t)
  {
    case val_type::FLOAT: return num(c);
    case val_type::INT: return (int)c.i32();
    case val_type::BOOL: return c.coin();
    case val_type::CHAR: return (char)c.range(-128, 127);
    case val_type::STRING: return text(c);
    case val_type::VEC2F: return vec<2>(c);
    case val_type::VEC3F: return vec<3>(c);
    case val_type::VEC4F: return vec<4>(c);
    case val_type::LIST: return list(c, depth);
    default: return impulse{};
  }
}
constexpr val_type TYPES[] = {val_type::FLOAT, val_type::INT, val_type::BOOL, val_type::CHAR, val_type::STRING,
                              val_type::VEC2F, val_type::VEC3F, val_type::VEC4F, val_type::LIST, val_type::IMPULSE};
ossia::value scalar(vf::Case& c, int depth)
{
  for(;;)
  {
    const auto t = TYPES[c.draw(std::size(TYPES))];
    if(t == val_type::LIST && depth > 2)
      continue;
    return gen(c, t, depth);
  }
}

template <typename T, typename F>
void bounds(vf::Case& c, T& d, F&& f)
{
  // the format gives either the bounds or the values
  if(c.chance(1, 3))
    for(int i = 0, n = (int)c.range(1, 4); i < n; i++)
      d.values.push_back(f());
  else
  {
    const int k = (int)c.range(1, 3);
    if(k & 1)
      d.min = f();
    if(k & 2)
      d.max = f();
  }
}
template <std::size_t N>
ossia::domain vec_domain(vf::Case& c)
{
  vecf_domain<N> d;
  bool some = false;
  for(std::size_t i = 0; i < N; i++)
  {
    if(c.coin())
      d.min[i] = num(c), some = true;
    if(c.coin())
      d.max[i] = num(c), some = true;
  }
  if(!some)
    d.min[0] = num(c);
  return d;
}
ossia::domain gen_domain(vf::Case& c, val_type t)
{
  switch(t)
  {
    case val_type::FLOAT: {
      domain_base<float> d;
      bounds(c, d, [&] { return num(c); });
      return d;
    }
    case val_type::INT: {
      domain_base<int32_t> d;
      bounds(c, d, [&] { return c.i32(); });
      return d;
    }
    case val_type::STRING: {
      domain_base<std::string> d;
      for(int i = 0, n = (int)c.range(1, 4); i < n; i++)
        d.values.push_back(text(c));
      return d;
    }
    case val_type::VEC2F: return vec_domain<2>(c);
    case val_type::VEC3F: return vec_domain<3>(c);
    case val_type::VEC4F: return vec_domain<4>(c);
    default: return {};
  }
}

std::string show(const ossia::domain& d) { return d.to_pretty_string(); }
std::string show(const ossia::value& v) { return gv::show(v); }
template <typename T>
std::string show(const std::optional<T>& t)
{
  if(!t)
    return "(none)";
  std::ostringstream s;
  if constexpr(std::is_same_v<T, ossia::value>)
    s << gv::show(*t);
  else if constexpr(std::is_same_v<T, tags>)
    for(auto& e : *t)
      s << e << "|";
  else if constexpr(std::is_same_v<T, instance_bounds>)
    s << t->min_instances << ".." << t->max_instances;
  else
    s << *t;
  return s.str();
}
// are 0 and -0 different ? (not for a repetition filter)
bool signed_zeros = true;
std::string unsigned_zeros(std::string s)
{
  for(auto i = s.find("-0"); i != std::string::npos; i = s.find("-0", i + 1))
    if(i + 2 == s.size() || s[i + 2] != '.')
      s.erase(i, 1);
  return s;
}
bool same(const ossia::value& a, const ossia::value& b)
{
  return gv::matches(a, gv::from_value(b)) || (!signed_zeros && unsigned_zeros(show(a)) == unsigned_zeros(show(b)));
}
template <typename T>
bool same(const std::optional<T>& a, const std::optional<T>& b)
{
  // numbers are read up to their last digit
  if constexpr(std::is_same_v<T, double>)
    return a.has_value() == b.has_value() && (!a || std::abs(*a - *b) <= 1e-14 * std::abs(*a));
  else
  if constexpr(std::is_same_v<T, ossia::value>)
    return a.has_value() == b.has_value() && (!a || same(*a, *b));
  else
    return a == b;
}

std::string gen_name(vf::Case& c)
{
  return c.pick({"a", "b", "c", "foo", "bar.1", "foo.bar", "x y"});
}

// (a description which does not say something does not remove it: there are other messages for this)
void decorate(vf::Case& c, node_base& n, bool removals = false)
{
  if(c.chance(1, 3))
    set_description(n, removals && c.chance(1, 8) ? std::optional<std::string>{} : text(c) + (removals ? "" : "."));
  if(c.chance(1, 4))
  {
    tags t;
    for(int i = 0, k = (int)c.range(1, 3); i < k; i++)
      t.push_back(text(c));
    set_tags(n, t);
  }
  if(c.chance(1, 4))
    set_refresh_rate(n, (int)c.range(-3, 1000));
  if(c.chance(1, 4))
    set_priority(n, num(c));
  if(c.chance(1, 4))
    set_value_step_size(n, (double)c.range(-400, 400) / 64.);
  if(c.chance(1, 4))
    set_instance_bounds(n, instance_bounds{(int)c.range(0, 5), (int)c.range(0, 50)});
  if(c.chance(1, 4))
    set_hidden(n, c.coin() || (!removals && get_hidden(n)));
  if(c.chance(1, 8))
    set_app_name(n, text(c) + (removals ? "" : "."));
  if(c.chance(1, 8))
    set_app_creator(n, text(c) + (removals ? "" : "."));
  if(c.chance(1, 8))
    set_app_version(n, text(c) + (removals ? "" : "."));
}

// is the value of this parameter one that the format gives ?
bool colour8(const parameter_base& p) { return p.get_unit() == rgba8_u{}; }
ossia::value gen_for(vf::Case& c, const parameter_base& p)
{
  if(colour8(p))
    return ossia::vec4f{(float)c.range(0, 255), (float)c.range(0, 255), (float)c.range(0, 255), (float)c.range(0, 255)};
  return gen(c, p.get_value_type());
}
// the same types, other values: types are only given for the value, and booleans are part of the type
ossia::value alike(vf::Case& c, const parameter_base& p, const ossia::value& v)
{
  if(auto l = v.target<std::vector<ossia::value>>())
  {
    std::vector<ossia::value> r;
    for(auto& e : *l)
      r.push_back(alike(c, p, e));
    return r;
  }
  return v.get_type() == val_type::BOOL ? v : gen(c, v.get_type());
}
// an impulse compares equal to anything: attributes with one are only set once
bool holds_impulse(const ossia::value& v)
{
  if(auto l = v.target<std::vector<ossia::value>>())
  {
    for(auto& e : *l)
      if(holds_impulse(e))
        return true;
    return false;
  }
  return v.get_type() == val_type::IMPULSE;
}
void settings(vf::Case& c, parameter_base& p, bool later = false)
{
  auto& n = p.get_node();
  if(c.chance(1, 3))
    p.set_domain(gen_domain(c, p.get_value_type()));
  if(c.chance(1, 3))
    p.set_bounding(c.pick({bounding_mode::FREE, bounding_mode::CLIP, bounding_mode::WRAP, bounding_mode::FOLD,
                           bounding_mode::LOW, bounding_mode::HIGH}));
  if(c.chance(1, 3))
    p.set_access(c.pick({access_mode::GET, access_mode::SET, access_mode::BI}));
  if(c.chance(1, 4))
    p.set_repetition_filter(c.coin() || (!later && p.get_repetition_filter() == repetition_filter::ON) ? repetition_filter::ON : repetition_filter::OFF);
  if(c.chance(1, 4))
    p.set_critical(c.coin() || (!later && p.get_critical()));
  if(c.chance(1, 4))
    p.set_disabled(c.coin() || (!later && p.get_disabled()));
  if(!(later && (p.get_value_type() == val_type::LIST || p.get_value_type() == val_type::BOOL)) && c.chance(1, 3))
  {
    if(!later)
      set_default_value(n, std::nullopt); // an impulse compares equal to anything
    set_default_value(n, colour8(p) ? gen_for(c, p) : alike(c, p, p.value()));
  }
}
// gives a parameter to a node; true when everything in it can be told
void parametrize(vf::Case& c, node_base& n, bool later = false)
{
  parameter_base* p{};
  switch(c.draw(6))
  {
    case 0: {
      auto u = all_units()[c.draw(all_units().size())];
      p = n.create_parameter(matching_type(u));
      p->set_unit(u);
      break;
    }
    case 1:
      p = n.create_parameter(val_type::STRING);
      set_extended_type(n, c.pick({filesystem_path_type(), url_type()}));
      break;
    default:
      p = n.create_parameter(TYPES[c.draw(std::size(TYPES))]);
      break;
  }
  p->set_value(gen_for(c, *p));
  settings(c, *p, later);
}

void compare(const node_base& a, const node_base& b, const std::string& ctx)
{
  const auto at = "on " + (a.osc_address()) + " " + ctx;
#define SAME(what, x, y)                                                                                   \
  {                                                                                                        \
    const auto& vx = x;                                                                                    \
    const auto& vy = y;                                                                                    \
    VF_CHECK(same(vx, vy), what << " is " << show(vy) << ", should be " << show(vx) << ", " << at);        \
  }
  SAME("description", get_description(a), get_description(b));
  SAME("tags", get_tags(a), get_tags(b));
  SAME("refresh rate", get_refresh_rate(a), get_refresh_rate(b));
  SAME("priority", get_priority(a), get_priority(b));
  SAME("step size", get_value_step_size(a), get_value_step_size(b));
  SAME("instance bounds", get_instance_bounds(a), get_instance_bounds(b));
  SAME("hidden", std::optional<bool>{get_hidden(a)}, std::optional<bool>{get_hidden(b)});
  SAME("app name", get_app_name(a), get_app_name(b));
  SAME("app creator", get_app_creator(a), get_app_creator(b));
  SAME("app version", get_app_version(a), get_app_version(b));
  auto p = a.get_parameter();
  auto q = b.get_parameter();
  VF_CHECK(bool(p) == bool(q), (q ? "there is a parameter " : "there is no parameter ") << at);
  if(p)
  {
    VF_CHECK(p->get_value_type() == q->get_value_type(),
             "type is " << value_to_pretty_string(q->value()) << ", should be " << value_to_pretty_string(p->value()) << ", " << at);
    VF_CHECK(p->get_unit() == q->get_unit(), "unit is " << get_pretty_unit_text(q->get_unit()) << ", should be "
                                                        << get_pretty_unit_text(p->get_unit()) << ", " << at);
    SAME("value", p->value(), q->value());
    VF_CHECK(p->get_domain() == q->get_domain(),
             "domain is " << show(q->get_domain()) << ", should be " << show(p->get_domain()) << ", " << at);
    VF_CHECK(p->get_bounding() == q->get_bounding(), "bounding mode " << (int)q->get_bounding() << ", should be " << (int)p->get_bounding() << ", " << at);
    VF_CHECK(p->get_access() == q->get_access(), "access mode " << (int)q->get_access() << ", should be " << (int)p->get_access() << ", " << at);
    VF_CHECK(p->get_repetition_filter() == q->get_repetition_filter(), "repetition filter, " << at);
    VF_CHECK(p->get_critical() == q->get_critical(), "critical is " << q->get_critical() << ", " << at);
    VF_CHECK(p->get_disabled() == q->get_disabled(), "disabled is " << q->get_disabled() << ", " << at);
    SAME("default value", get_default_value(a), get_default_value(b));
    SAME("extended type", get_extended_type(a), get_extended_type(b));
  }
}
void compare_rec(const node_base& a, const node_base& b, const std::string& ctx)
{
  compare(a, b, ctx);
  auto ca = a.children_copy(), cb = b.children_copy();
  std::vector<std::string> na, nb;
  for(auto n : ca)
    na.push_back(n->get_name());
  for(auto n : cb)
    nb.push_back(n->get_name());
  auto join = [](auto& v) {
    std::string s;
    for(auto& e : v)
      s += e + " ";
    return s;
  };
  VF_CHECK(na == nb, "children of " << a.osc_address() << " are " << join(nb) << "instead of " << join(na) << ctx);
  for(std::size_t i = 0; i < ca.size(); i++)
    compare_rec(*ca[i], *cb[i], ctx);
}

void collect(node_base& n, std::vector<node_base*>& v)
{
  v.push_back(&n);
  for(auto c : n.children_copy())
    collect(*c, v);
}
void build(vf::Case& c, node_base& root, int& params)
{
  std::vector<node_base*> all{&root};
  for(std::size_t i = 0; c.more(i, 12, 5); i++)
  {
    auto parent = all[c.draw(all.size())];
    auto n = parent->create_child(gen_name(c));
    VF_CHECK(n, "no node created");
    all.push_back(n);
    if(c.chance(3, 4))
    {
      parametrize(c, *n);
      params++;
    }
    decorate(c, *n);
  }
}
}
