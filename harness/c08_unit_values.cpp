// C08: unit names, accessors, and values that carry a unit.
#include "gen_value.hpp"

#include <ossia/network/dataspace/dataspace.hpp>
#include <ossia/network/dataspace/dataspace_parse.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/dataspace/value_with_unit.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/value/value.hpp>

#include <algorithm>
#include <bitset>

using gv::MV;
const char* const vf::rule
    = "unit names in any spelling and letter case and edits of them; values of every "
      "type given a unit and merged into one, whole or at an index or mask; "
      "non-trivial: a recognised name, or a merge that touches a component";

struct N
{
  ossia::unit_t u;
  const char* ds;
  int dsi, ui;
  std::vector<std::string> names; // first one is the canonical
  const char* acc;
  int n;
};
static const std::vector<N>& table()
{
  using namespace ossia;
  static const std::vector<N> t{
      {meter_u{}, "distance", 0, 0, {"m", "meters"}, "", 1},
      {kilometer_u{}, "distance", 0, 1, {"km", "kilometers"}, "", 1},
      {decimeter_u{}, "distance", 0, 2, {"dm", "decimeters"}, "", 1},
      {centimeter_u{}, "distance", 0, 3, {"cm", "centimeters"}, "", 1},
      {millimeter_u{}, "distance", 0, 4, {"mm", "millimeters"}, "", 1},
      {micrometer_u{}, "distance", 0, 5, {"um", "micrometers"}, "", 1},
      {nanometer_u{}, "distance", 0, 6, {"nm", "nanometers"}, "", 1},
      {picometer_u{}, "distance", 0, 7, {"pm", "picometers"}, "", 1},
      {inch_u{}, "distance", 0, 8, {"inches", "\""}, "", 1},
      {foot_u{}, "distance", 0, 9, {"feet", "'"}, "", 1},
      {mile_u{}, "distance", 0, 10, {"miles"}, "", 1},
      {cartesian_3d_u{}, "position", 1, 0, {"cart3D", "xyz"}, "xyz", 3},
      {cartesian_2d_u{}, "position", 1, 1, {"cart2D", "xy"}, "xy", 2},
      {spherical_u{}, "position", 1, 2, {"spherical", "rtp"}, "rtp", 3},
      {polar_u{}, "position", 1, 3, {"polar", "rp"}, "rp", 2},
      {opengl_u{}, "position", 1, 4, {"openGL"}, "xyz", 3},
      {cylindrical_u{}, "position", 1, 5, {"cylindrical", "rpz"}, "rpz", 3},
      {meter_per_second_u{}, "speed", 2, 0, {"m/s"}, "", 1},
      {miles_per_hour_u{}, "speed", 2, 1, {"mph", "mi/h"}, "", 1},
      {kilometer_per_hour_u{}, "speed", 2, 2, {"km/h", "kmph"}, "", 1},
      {knot_u{}, "speed", 2, 3, {"kn"}, "", 1},
      {foot_per_second_u{}, "speed", 2, 4, {"ft/s"}, "", 1},
      {foot_per_hour_u{}, "speed", 2, 5, {"ft/h"}, "", 1},
      {quaternion_u{}, "orientation", 3, 0, {"quaternion", "quat"}, "abcd", 4},
      {euler_u{}, "orientation", 3, 1, {"euler", "ypr"}, "ypr", 3},
      {axis_u{}, "orientation", 3, 2, {"axis", "xyzw"}, "xyzw", 4},
      {degree_u{}, "angle", 4, 0, {"degree", "deg"}, "", 1},
      {radian_u{}, "angle", 4, 1, {"radian", "rad"}, "", 1},
      {argb_u{}, "color", 5, 0, {"argb"}, "argb", 4},
      {rgba_u{}, "color", 5, 1, {"rgba"}, "rgba", 4},
      {rgb_u{}, "color", 5, 2, {"rgb"}, "rgb", 3},
      {bgr_u{}, "color", 5, 3, {"bgr"}, "bgr", 3},
      {argb8_u{}, "color", 5, 4, {"argb8"}, "argb", 4},
      {rgba8_u{}, "color", 5, 5, {"rgba8"}, "rgba", 4},
      {hsv_u{}, "color", 5, 6, {"hsv"}, "hsv", 3},
      {cmy8_u{}, "color", 5, 7, {"cmy8"}, "cmy", 3},
      {xyz_u{}, "color", 5, 8, {"cie_xyz"}, "xyz", 3},
      {linear_u{}, "gain", 6, 0, {"linear"}, "", 1},
      {midigain_u{}, "gain", 6, 1, {"midigain"}, "", 1},
      {decibel_u{}, "gain", 6, 2, {"db", "dB"}, "", 1},
      {decibel_raw_u{}, "gain", 6, 3, {"db-raw", "dB-raw"}, "", 1},
      {second_u{}, "time", 7, 0, {"second", "s"}, "", 1},
      {bark_u{}, "time", 7, 1, {"bark"}, "", 1},
      {bpm_u{}, "time", 7, 2, {"bpm"}, "", 1},
      {cent_u{}, "time", 7, 3, {"cents"}, "", 1},
      {frequency_u{}, "time", 7, 4, {"Hz", "hz", "Hertz"}, "", 1},
      {mel_u{}, "time", 7, 5, {"mel"}, "", 1},
      {midi_pitch_u{}, "time", 7, 6, {"midinote", "midipitch", "pitch"}, "", 1},
      {millisecond_u{}, "time", 7, 7, {"ms", "millisecond"}, "", 1},
      {playback_speed_u{}, "time", 7, 8, {"speed"}, "", 1}};
  return t;
}
static std::string lower(std::string s)
{
  for (auto& c : s)
    c = (char)std::tolower((unsigned char)c);
  return s;
}
static std::string recase(vf::Case& c, std::string s)
{
  const int m = (int)c.draw(3);
  for (auto& x : s)
    if (m == 1 || (m == 2 && c.coin()))
      x = (char)std::toupper((unsigned char)x);
  return s;
}

VF_PROP(names, 40000, 400000)
{
  const N& n = c.pick(const_cast<std::vector<N>&>(table()));
  c.nontrivial();
  const std::string pretty = std::string(n.ds) + "." + n.names[0];
  if (ossia::get_dataspace_text(n.u) != n.ds)
    VF_FAIL(pretty << ": dataspace text is " << ossia::get_dataspace_text(n.u));
  if (ossia::get_unit_text(n.u) != n.names[0])
    VF_FAIL(pretty << ": unit text is " << ossia::get_unit_text(n.u));
  if (ossia::get_pretty_unit_text(n.u) != pretty)
    VF_FAIL(pretty << ": pretty text is " << ossia::get_pretty_unit_text(n.u));
  const std::string nm = n.names[c.draw(n.names.size())];
  const ossia::unit_t ds = ossia::parse_dataspace(n.ds);
  if (!(ds.v.which() == n.u.v.which()))
    VF_FAIL(n.ds << ": parse_dataspace gives another family");
  if (ossia::parse_unit(nm, ds) != n.u)
    VF_FAIL("parse_unit(" << nm << ", " << n.ds << ") is " << ossia::get_pretty_unit_text(ossia::parse_unit(nm, ds)));
  if (ossia::parse_unit(nm, n.u) != n.u)
    VF_FAIL("parse_unit(" << nm << ", itself) differs");
  const std::string lg = recase(c, std::string(n.ds) + "." + nm);
  if (ossia::parse_pretty_unit(lg) != n.u)
    VF_FAIL("parse_pretty_unit(" << lg << ") is " << ossia::get_pretty_unit_text(ossia::parse_pretty_unit(lg)));
  // short names, unless they also name a family
  if (nm != "speed")
  {
    const std::string sh = recase(c, nm);
    if (ossia::parse_pretty_unit(sh) != n.u)
      VF_FAIL("parse_pretty_unit(" << sh << ") is " << ossia::get_pretty_unit_text(ossia::parse_pretty_unit(sh)));
  }
  if (ossia::make_unit(n.dsi, n.ui) != n.u)
    VF_FAIL("make_unit(" << n.dsi << ", " << n.ui << ") is " << ossia::get_pretty_unit_text(ossia::make_unit(n.dsi, n.ui)));
  // another unit of the table is a different unit
  const N& o = c.pick(const_cast<std::vector<N>&>(table()));
  if ((&o == &n) != (o.u == n.u))
    VF_FAIL(pretty << " and " << o.names[0] << " compare wrongly");
  // components
  const std::string acc = n.acc;
  if (ossia::get_unit_accessors(n.u) != acc)
    VF_FAIL(pretty << ": accessors are " << ossia::get_unit_accessors(n.u));
  const int k = (int)c.draw(6);
  const char want = k < (int)acc.size() ? acc[k] : 0;
  if (ossia::get_unit_accessor(n.u, (uint8_t)k) != want)
    VF_FAIL(pretty << ": component " << k << " is called '" << ossia::get_unit_accessor(n.u, (uint8_t)k) << "'");
  const auto tp = ossia::matching_type(n.u);
  const ossia::val_type tps[] = {ossia::val_type::FLOAT, ossia::val_type::VEC2F, ossia::val_type::VEC3F, ossia::val_type::VEC4F};
  if (tp != tps[n.n - 1])
    VF_FAIL(pretty << ": value type is " << ossia::value_to_pretty_string(ossia::init_value(tp)));
  // as qualifiers of an address: color.rgb.r
  auto& sy = ossia::get_unit_parser();
  std::string q = std::string(n.ds) + "." + nm;
  auto p = sy.find(q);
  if (!p || p->unit != n.u || !p->accessors.empty())
    VF_FAIL("qualifier " << q << " is not understood");
  if (k < (int)acc.size())
  {
    q += std::string(".") + acc[k];
    p = sy.find(q);
    if (!p || p->unit != n.u || p->accessors.size() != 1 || p->accessors[0] != k)
      VF_FAIL("qualifier " << q << " is not understood");
  }
  if (ossia::to_unit(ossia::make_value(ossia::init_value(tp), n.u)) != n.u)
    VF_FAIL("a value given the unit " << pretty << " reports another one");
}

VF_PROP(unknown_names, 40000, 400000)
{
  const N& n = c.pick(const_cast<std::vector<N>&>(table()));
  std::string s = c.coin() ? std::string(n.ds) + "." + n.names[0] : n.names[0];
  const int k = 1 + (int)c.draw(2);
  for (int i = 0; i < k; i++)
  {
    const std::size_t at = c.draw(s.size() + 1);
    switch (c.draw(3))
    {
      case 0:
        s.insert(at, 1, (char)('a' + c.draw(26)));
        break;
      case 1:
        if (at < s.size())
          s.erase(at, 1);
        break;
      default:
        if (at < s.size())
          s[at] = c.pick({'.', '_', 'x', 'q', '8', '/', ' '});
    }
  }
  // names are found in the table or mean no unit
  ossia::unit_t got = ossia::parse_pretty_unit(s);
  const std::string l = lower(s);
  if (got)
  {
    c.nontrivial();
    bool any = false;
    for (auto& t : table())
      any |= t.u == got;
    if (!any)
      VF_FAIL("parse_pretty_unit(" << s << ") is an unknown unit");
  }
  ossia::unit_t u2 = ossia::parse_unit(s, ossia::parse_dataspace(n.ds));
  bool in = false;
  for (auto& t : table())
    if (std::string(t.ds) == n.ds)
      for (auto& x : t.names)
        if (x == s)
        {
          in = true;
          if (u2 != t.u)
            VF_FAIL("parse_unit(" << s << ") is another unit");
        }
  if (!in && u2)
    VF_FAIL("parse_unit(" << s << ", " << n.ds << ") is " << ossia::get_pretty_unit_text(u2));
}

static std::vector<float> comps(const MV& m)
{
  if (m.t == MV::VEC2)
    return {m.v[0], m.v[1]};
  if (m.t == MV::VEC3)
    return {m.v[0], m.v[1], m.v[2]};
  return {m.v[0], m.v[1], m.v[2], m.v[3]};
}
static bool is_vec(const MV& m) { return m.t == MV::VEC2 || m.t == MV::VEC3 || m.t == MV::VEC4; }
static bool num(const MV& m, float& f)
{
  switch (m.t)
  {
    case MV::INT:
      f = (float)m.i;
      return true;
    case MV::FLOAT:
      f = m.f;
      return true;
    case MV::BOOL:
      f = m.i ? 1.f : 0.f;
      return true;
    case MV::CHAR:
      f = (float)m.i;
      return true;
    default:
      return false;
  }
}
static MV gen_operand(vf::Case& c)
{
  gv::Opts o;
  o.lists = false;
  if (c.chance(1, 4))
  {
    std::vector<MV> l;
    const std::size_t n = c.size(0, 5);
    for (std::size_t i = 0; i < n; i++)
    {
      MV e;
      if (c.coin())
      {
        e.t = MV::INT;
        e.i = (int)c.range(-50, 50);
      }
      else
      {
        e.t = MV::FLOAT;
        e.f = c.f32();
      }
      l.push_back(e);
    }
    MV m;
    m.t = MV::LIST;
    m.l = l;
    return m;
  }
  return gv::gen(c, o);
}
static ossia::value mkvec(const std::vector<float>& f)
{
  switch (f.size())
  {
    case 1:
      return f[0];
    case 2:
      return ossia::make_vec(f[0], f[1]);
    case 3:
      return ossia::make_vec(f[0], f[1], f[2]);
    default:
      return ossia::make_vec(f[0], f[1], f[2], f[3]);
  }
}

VF_PROP(give_unit, 60000, 800000)
{
  const N& n = c.pick(const_cast<std::vector<N>&>(table()));
  const MV m = gen_operand(c);
  const ossia::value v = gv::to_value(m);
  auto r = ossia::make_value(v, n.u);
  float f;
  std::vector<float> want;
  if (n.n == 1)
  {
    if (num(m, f))
      want = {f};
  }
  else if (is_vec(m) || m.t == MV::LIST)
  {
    std::vector<float> src;
    if (m.t == MV::LIST)
      for (auto& e : m.l)
        num(e, f), src.push_back(f);
    else
      src = comps(m);
    src.resize(n.n, 0.f);
    want = src;
  }
  if (want.empty())
  {
    if (r)
      VF_FAIL(gv::show(m) << " given the unit " << n.names[0] << " becomes " << ossia::to_pretty_string(r));
    return;
  }
  c.nontrivial();
  if (!(ossia::to_value(r) == mkvec(want)) || ossia::to_value(r).get_type() != ossia::matching_type(n.u) || ossia::to_unit(r) != n.u)
    VF_FAIL(gv::show(m) << " given the unit " << n.names[0] << " becomes "
                        << ossia::to_pretty_string(r));
}

VF_PROP(merge_value, 80000, 1000000)
{
  const N& n = c.pick(const_cast<std::vector<N>&>(table()));
  std::vector<float> cur;
  for (int i = 0; i < n.n; i++)
    cur.push_back(c.f32());
  const auto vu = ossia::make_value(mkvec(cur), n.u);
  const MV m = gen_operand(c);
  ossia::destination_index idx;
  const int d = (int)c.weighted({3, 4, 1});
  for (int i = 0; i < d; i++)
    idx.push_back((int)c.draw(c.chance(1, 6) ? 9 : 4));
  auto want = cur;
  float f;
  if (d == 0)
  {
    if (n.n == 1)
    {
      if (num(m, f))
        want[0] = f;
    }
    else if (is_vec(m) || m.t == MV::LIST)
    {
      std::vector<float> src;
      if (m.t == MV::LIST)
        for (auto& e : m.l)
          num(e, f), src.push_back(f);
      else
        src = comps(m);
      for (std::size_t i = 0; i < std::min(src.size(), want.size()); i++)
        want[i] = src[i];
    }
  }
  else if (d == 1 && n.n > 1)
  {
    const std::size_t i = (std::size_t)idx[0];
    if (i < want.size())
    {
      if (num(m, f))
        want[i] = f;
      else if (m.t == MV::LIST && i < m.l.size())
        num(m.l[i], want[i]);
      else if (is_vec(m) && i < comps(m).size())
        want[i] = comps(m)[i];
    }
  }
  c.nontrivial(want != cur);
  const auto r = ossia::merge(vu, gv::to_value(m), idx);
  std::ostringstream w;
  w << "merging " << gv::show(m) << " into " << ossia::to_pretty_string(vu) << " at [";
  for (auto i : idx)
    w << (int)i << " ";
  w << "]";
  VF_NOTE(w.str() << " -> " << ossia::to_pretty_string(r));
  if (ossia::to_unit(r) != n.u)
    VF_FAIL(w.str() << " loses the unit");
  if (!(ossia::to_value(r) == mkvec(want)))
    VF_FAIL(w.str() << " gives " << ossia::to_pretty_string(r) << ", expected " << ossia::value_to_pretty_string(mkvec(want)));
}

template <std::size_t K>
static void mask_case(vf::Case& c, const N& n, const std::vector<float>& cur)
{
  std::array<float, K> v;
  std::bitset<K> b;
  for (std::size_t i = 0; i < K; i++)
  {
    v[i] = c.f32();
    b[i] = c.chance(2, 3);
  }
  auto want = cur;
  if (b.all() && n.n > 1)
  {
    for (std::size_t i = 0; i < std::min(K, want.size()); i++)
      want[i] = v[i];
  }
  else if (b.any() && !b.all())
  {
    if ((int)K != n.n)
    {
      // not mergeable: no value, or the value as it was
      const auto r = ossia::merge(ossia::make_value(mkvec(cur), n.u), v, b);
      if (r && !(ossia::to_value(r) == mkvec(cur)))
        VF_FAIL("merging a vector of " << K << " by mask into " << n.names[0] << " changes it");
      return;
    }
    for (std::size_t i = 0; i < K; i++)
      if (b[i])
        want[i] = v[i];
  }
  c.nontrivial(want != cur);
  const auto r = ossia::merge(ossia::make_value(mkvec(cur), n.u), v, b);
  if (ossia::to_unit(r) != n.u || !(ossia::to_value(r) == mkvec(want)))
    VF_FAIL("merging " << ossia::value_to_pretty_string(ossia::value{v}) << " by mask " << b.to_string()
                       << " into " << ossia::value_to_pretty_string(mkvec(cur)) << " " << n.names[0]
                       << " gives " << ossia::to_pretty_string(r));
}
VF_PROP(merge_mask, 60000, 800000)
{
  const N& n = c.pick(const_cast<std::vector<N>&>(table()));
  std::vector<float> cur;
  for (int i = 0; i < n.n; i++)
    cur.push_back(c.f32());
  int k = 2 + (int)c.draw(3);
  if (c.coin() && n.n > 1)
    k = n.n;
  if (k == 2)
    mask_case<2>(c, n, cur);
  else if (k == 3)
    mask_case<3>(c, n, cur);
  else
    mask_case<4>(c, n, cur);
}

// "position.polar.r" must be the distance the conversions use
VF_KNOWN(polar_components, "polar and spherical positions: the accessors, units and default ranges put the distance first, the conversions put it last")
{
  auto v = ossia::convert(
      ossia::value{ossia::make_vec(0.f, 7.f)}, ossia::unit_t{ossia::cartesian_2d_u{}}, ossia::unit_t{ossia::polar_u{}});
  auto p = v.target<ossia::vec2f>();
  if (p && ossia::get_unit_accessor(ossia::polar_u{}, 0) == 'r' && std::abs((*p)[0] - 7.f) > 0.01f)
    throw vf::Fail("a point 7 m away has its distance in component 1, called 'p'");
}
