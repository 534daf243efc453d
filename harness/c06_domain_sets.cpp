// C06: domains: allowed values, creation, reading back, conversion.
#include "gen_value.hpp"

#include <ossia/network/domain/domain.hpp>
#include <ossia/network/domain/domain_conversion.hpp>
#include <ossia/network/value/value.hpp>

using gv::MV;
using ossia::bounding_mode;
const char* const vf::rule
    = "domains of every value type made from bounds and/or allowed values, then edit "
      "histories of bounds and allowed values; non-trivial: a set of allowed values, or "
      "two or more edits";

static const bounding_mode MODES[]
    = {bounding_mode::CLIP, bounding_mode::WRAP, bounding_mode::FOLD,
       bounding_mode::LOW, bounding_mode::HIGH};

static gv::Opts scalars()
{
  gv::Opts o;
  o.lists = false;
  return o;
}

static MV gen_t(vf::Case& c, MV::T t)
{
  MV m;
  m.t = t;
  switch (t)
  {
    case MV::FLOAT:
      m.f = c.coin() ? (float)c.range(-6, 6) : c.f32();
      break;
    case MV::INT:
      m.i = c.coin() ? (int)c.range(-6, 6) : c.i32();
      break;
    case MV::CHAR:
      m.i = (int)c.range(-8, 8);
      break;
    case MV::BOOL:
      m.i = c.coin();
      break;
    case MV::STRING:
      m.s = c.str(3, "abc");
      break;
    case MV::VEC2:
    case MV::VEC3:
    case MV::VEC4:
      for (int i = 0; i < (t == MV::VEC2 ? 2 : t == MV::VEC3 ? 3 : 4); i++)
        m.v[i] = (float)c.range(-6, 6);
      break;
    case MV::LIST:
      for (int n = 0; c.more(n, 4, 2); n++)
        m.l.push_back(gen_t(c, c.coin() ? MV::INT : MV::FLOAT));
      break;
    default:
      break;
  }
  return m;
}

// only members of the set go through; without a set everything goes through
VF_PROP(scalar_sets, 250000, 4000000)
{
  static const MV::T TS[] = {MV::INT, MV::FLOAT, MV::CHAR, MV::STRING};
  const MV::T t = TS[c.draw(4)];
  std::vector<MV> set;
  for (int n = 0; c.more(n, 6, 4); n++)
    set.push_back(gen_t(c, t));
  std::vector<ossia::value> vals;
  for (auto& m : set)
    vals.push_back(gv::to_value(m));
  ossia::domain d;
  int how = c.draw(3);
  if (how == 1 && vals.empty())
    how = 0;
  if (how == 0)
  {
    d = ossia::init_domain(gv::vt(t));
    ossia::set_values(d, vals);
  }
  else if (how == 1)
    d = ossia::make_domain(vals);
  else
    d = ossia::make_domain(gv::to_value(gen_t(c, t)), ossia::value{}, vals);
  const MV x = !set.empty() && c.coin() ? set[c.draw(set.size())] : gen_t(c, t);
  const auto b = MODES[c.draw(5)];
  std::string ctx = gv::show(x) + " in {";
  for (auto& m : set)
    ctx += gv::show(m) + " ";
  ctx += "} made by way " + std::to_string(how);
  VF_NOTE(ctx);
  c.nontrivial(!set.empty());
  if (set.empty())
  {
    if (how == 2)
      return;
    auto got = ossia::apply_domain(d, b, gv::to_value(x));
    VF_CHECK(gv::matches(got, x), "no allowed values given, but got " << gv::show(got) << ": " << ctx);
    return;
  }
  bool member = false;
  for (auto& m : set)
    member |= t == MV::STRING ? m.s == x.s : t == MV::FLOAT ? m.f == x.f : m.i == x.i;
  c.label(member, "member");
  auto got = ossia::apply_domain(d, b, gv::to_value(x));
  auto got2 = ossia::apply_domain(d, b, ossia::value{gv::to_value(x)});
  VF_CHECK(gv::matches(got2, gv::from_value(got)), "temporary differs: " << ctx);
  if (member)
    VF_CHECK(gv::matches(got, x) || (t == MV::FLOAT && got == gv::to_value(x)), "member gives " << gv::show(got) << ": " << ctx);
  else
    VF_CHECK(!got.valid(), "non-member gives " << gv::show(got) << ": " << ctx);
  auto fr = ossia::apply_domain(d, bounding_mode::FREE, gv::to_value(x));
  VF_CHECK(gv::matches(fr, x), "free bounding gives " << gv::show(fr) << ": " << ctx);
  // reading the set back
  auto back = ossia::get_values(d);
  VF_CHECK(back.size() == set.size(), "allowed values read back: " << back.size() << ": " << ctx);
  for (std::size_t i = 0; i < set.size(); i++)
    VF_CHECK(gv::matches(back[i], set[i]), "allowed value " << i << " reads back " << gv::show(back[i]) << ": " << ctx);
  // a vector under a float set: all its components have to be members
  if (t == MV::FLOAT)
  {
    std::array<float, 3> v;
    bool all = true;
    for (auto& f : v)
    {
      f = c.chance(3, 4) ? set[c.draw(set.size())].f : c.f32();
      bool in = false;
      for (auto& m : set)
        in |= m.f == f;
      all &= in;
    }
    auto g = ossia::apply_domain(d, b, ossia::value{v});
    if (all)
      VF_CHECK((g.target<std::array<float, 3>>() && *g.target<std::array<float, 3>>() == v), "vector of members refused: " << ctx);
    else
      VF_CHECK(!g.valid(), "vector with a non-member accepted: " << gv::show(g) << " " << ctx);
  }
}

VF_PROP(component_sets, 200000, 3000000)
{
  // one set of allowed values per component
  const int n = (int)c.range(1, 4);
  const bool list = c.coin();
  std::vector<std::vector<float>> sets(n);
  for (auto& s : sets)
    for (int k = 0; c.more(k, 4, 2); k++)
      s.push_back((float)c.range(-4, 4));
  std::vector<float> v(n);
  for (int i = 0; i < n; i++)
    v[i] = !sets[i].empty() && c.coin() ? sets[i][c.draw(sets[i].size())] : (float)c.range(-4, 4);
  std::string ctx;
  for (int i = 0; i < n; i++)
  {
    ctx += std::to_string(v[i]) + " in {";
    for (float f : sets[i])
      ctx += std::to_string(f) + " ";
    ctx += "} ";
  }
  VF_NOTE(ctx);
  const auto b = MODES[c.draw(5)];
  bool any = false;
  for (auto& s : sets)
    any |= !s.empty();
  c.nontrivial(any);
  auto member = [&](int i) {
    for (float f : sets[i])
      if (f == v[i])
        return true;
    return sets[i].empty();
  };
  if (list || n < 2)
  {
    ossia::vector_domain d;
    std::vector<ossia::value> in;
    for (int i = 0; i < n; i++)
    {
      ossia::flat_set<ossia::value> s;
      for (float f : sets[i])
        s.insert(ossia::value{f});
      d.values.push_back(s);
      in.push_back(ossia::value{v[i]});
    }
    ossia::domain dom{d};
    auto got = ossia::apply_domain(dom, b, ossia::value{in});
    auto p = got.target<std::vector<ossia::value>>();
    VF_CHECK(p && (int)p->size() == n, "list became " << gv::show(got) << ": " << ctx);
    for (int i = 0; i < n; i++)
      if (member(i))
        VF_CHECK((*p)[i].target<float>() && *(*p)[i].target<float>() == v[i], "member " << i << " lost: " << gv::show(got) << ": " << ctx);
      else
        VF_CHECK(!(*p)[i].valid(), "non-member " << i << " kept: " << gv::show(got) << ": " << ctx);
    auto got2 = ossia::apply_domain(dom, b, ossia::value{std::move(in)});
    VF_CHECK(gv::matches(got2, gv::from_value(got)), "temporary differs: " << gv::show(got2) << " and " << gv::show(got));
    return;
  }
  auto run = [&](auto N) {
    constexpr std::size_t K = decltype(N)::value;
    ossia::vecf_domain<K> d;
    std::array<float, K> in;
    for (std::size_t i = 0; i < K; i++)
    {
      for (float f : sets[i])
        d.values[i].insert(f);
      in[i] = v[i];
    }
    auto got = ossia::apply_domain(ossia::domain{d}, b, ossia::value{in});
    auto p = got.template target<std::array<float, K>>();
    VF_CHECK(p, "vector became " << gv::show(got));
    for (std::size_t i = 0; i < K; i++)
      if (member(i))
        VF_CHECK((*p)[i] == v[i], "member " << i << " lost: " << gv::show(got) << ": " << ctx);
      else if (v[i] != 0.f)
        VF_CHECK((*p)[i] != v[i], "non-member " << i << " kept: " << gv::show(got) << ": " << ctx);
  };
  switch (n)
  {
    case 2:
      return run(std::integral_constant<std::size_t, 2>{});
    case 3:
      return run(std::integral_constant<std::size_t, 3>{});
    default:
      return run(std::integral_constant<std::size_t, 4>{});
  }
}

// bounds given are bounds read, through any history of edits
VF_PROP(bounds_history, 120000, 2000000)
{
  static const MV::T TS[]
      = {MV::INT, MV::FLOAT, MV::CHAR, MV::VEC2, MV::VEC3, MV::VEC4, MV::LIST};
  const MV::T t = TS[c.draw(7)];
  MV lo, hi; // NONE: no bound
  std::vector<MV> set;
  ossia::domain d;
  std::string ctx;
  const int how = c.draw(4);
  if (how & 1)
    lo = gen_t(c, t);
  if (how & 2)
    hi = gen_t(c, t);
  d = how ? ossia::make_domain(gv::to_value(lo), gv::to_value(hi)) : ossia::init_domain(gv::vt(t));
  ctx = "make(" + gv::show(lo) + ", " + gv::show(hi) + ")";
  int edits = 0;
  auto list_none = [&](const MV& m, const ossia::value& got) {
    // no bound on a list: an empty list
    if (t == MV::LIST && m.t == MV::NONE)
      return got.target<std::vector<ossia::value>>()
             && got.target<std::vector<ossia::value>>()->empty();
    return gv::matches(got, m);
  };
  auto check = [&] {
    VF_CHECK(bool(d), "no domain after " << ctx);
    VF_CHECK(list_none(lo, ossia::get_min(d)), "minimum reads " << gv::show(ossia::get_min(d)) << " after " << ctx);
    VF_CHECK(list_none(hi, ossia::get_max(d)), "maximum reads " << gv::show(ossia::get_max(d)) << " after " << ctx);
    VF_CHECK(list_none(lo, d.get_min()) && list_none(hi, d.get_max()), "members differ after " << ctx);
    if (t == MV::INT || t == MV::FLOAT || t == MV::CHAR)
    {
      auto f = ossia::get_float_minmax(d);
      auto num = [&](const MV& m) { return t == MV::FLOAT ? m.f : (float)m.i; };
      VF_CHECK(bool(f.first) == (lo.t != MV::NONE) && (!f.first || *f.first == num(lo)), "float minimum wrong after " << ctx);
      VF_CHECK(bool(f.second) == (hi.t != MV::NONE) && (!f.second || *f.second == num(hi)), "float maximum wrong after " << ctx);
      auto back = ossia::get_values(d);
      VF_CHECK(back.size() == set.size(), "allowed values count after " << ctx);
      for (std::size_t i = 0; i < set.size(); i++)
        VF_CHECK(gv::matches(back[i], set[i]), "allowed value changed after " << ctx);
    }
  };
  check();
  for (int n = 0; c.more(n, 6, 4); n++)
  {
    edits++;
    switch (c.draw(5))
    {
      case 0:
        lo = gen_t(c, t);
        ctx += " min=" + gv::show(lo);
        c.coin() ? ossia::set_min(d, gv::to_value(lo)) : d.set_min(gv::to_value(lo));
        break;
      case 1:
        hi = gen_t(c, t);
        ctx += " max=" + gv::show(hi);
        c.coin() ? ossia::set_max(d, gv::to_value(hi)) : d.set_max(gv::to_value(hi));
        break;
      case 2:
        ctx += " no min";
        lo = MV{};
        ossia::set_min(d, ossia::value{});
        break;
      case 3:
        ctx += " no max";
        hi = MV{};
        ossia::set_max(d, ossia::value{});
        break;
      default:
        if (t == MV::INT || t == MV::FLOAT || t == MV::CHAR)
        {
          set.clear();
          std::vector<ossia::value> vals;
          for (int k = 0; c.more(k, 4, 2); k++)
          {
            set.push_back(gen_t(c, t));
            vals.push_back(gv::to_value(set.back()));
          }
          ossia::set_values(d, vals);
          ctx += " values x" + std::to_string(vals.size());
        }
        else
        {
          ossia::domain e{d};
          VF_CHECK(e == d, "copy differs after " << ctx);
          d = ossia::domain{};
          d = std::move(e);
        }
    }
    check();
  }
  VF_NOTE(ctx);
  c.nontrivial(edits >= 2);
  ossia::domain e{d};
  VF_CHECK(e == d && !(e != d), "copy differs after " << ctx);
}

// allowed values set on a vector or list domain apply to every component
VF_PROP(set_values_components, 60000, 600000)
{
  std::vector<ossia::value> vals;
  std::set<float> ref;
  for (int k = 0; c.more(k, 5, 3); k++)
  {
    float f = (float)c.range(-5, 5);
    vals.push_back(ossia::value{f});
    ref.insert(f);
  }
  c.nontrivial(ref.size() > 1);
  const int n = (int)c.range(2, 4);
  ossia::domain d = ossia::init_domain(
      n == 2 ? ossia::val_type::VEC2F : n == 3 ? ossia::val_type::VEC3F : ossia::val_type::VEC4F);
  const bool list = c.coin();
  if (list)
  {
    ossia::vector_domain v;
    v.values.resize(n);
    d = v;
  }
  ossia::set_values(d, vals);
  auto back = ossia::get_values(d);
  VF_NOTE(n << " components, " << vals.size() << " values, list " << list);
  VF_CHECK((int)back.size() == n, "components: " << back.size());
  for (auto& b : back)
  {
    auto l = b.target<std::vector<ossia::value>>();
    VF_CHECK(l, "component values are not a list");
    std::set<float> got;
    for (auto& x : *l)
      got.insert(x.get<float>());
    VF_CHECK(got == ref && l->size() == ref.size(), "component has " << gv::show(b) << " out of " << ref.size() << " values");
  }
}

// converting a domain between numeric types keeps bounds and allowed values
VF_PROP(conversion, 120000, 1500000)
{
  static const MV::T TS[] = {MV::INT, MV::FLOAT, MV::CHAR};
  const MV::T from = TS[c.draw(3)], to = TS[c.draw(3)];
  auto small = [&] {
    MV m;
    m.t = from;
    const int v = (int)c.range(-100, 100);
    m.i = v;
    m.f = (float)v;
    return m;
  };
  MV lo, hi;
  if (c.coin())
    lo = small();
  if (c.coin())
    hi = small();
  std::vector<MV> set;
  std::vector<ossia::value> vals;
  for (int k = 0; c.more(k, 4, 2); k++)
  {
    set.push_back(small());
    vals.push_back(gv::to_value(set.back()));
  }
  ossia::domain d = ossia::init_domain(gv::vt(from));
  ossia::set_min(d, gv::to_value(lo));
  ossia::set_max(d, gv::to_value(hi));
  ossia::set_values(d, vals);
  auto e = ossia::convert_domain(d, gv::vt(to));
  auto as = [&](MV m) {
    if (m.t == MV::NONE)
      return m;
    m.t = to;
    return m;
  };
  c.nontrivial(from != to && (lo.t != MV::NONE || hi.t != MV::NONE || !set.empty()));
  const std::string ctx = gv::show(lo) + " " + gv::show(hi) + " to type " + std::to_string(to);
  VF_NOTE(ctx);
  VF_CHECK(gv::matches(ossia::get_min(e), as(lo)), "minimum becomes " << gv::show(ossia::get_min(e)) << ": " << ctx);
  VF_CHECK(gv::matches(ossia::get_max(e), as(hi)), "maximum becomes " << gv::show(ossia::get_max(e)) << ": " << ctx);
  auto b = ossia::get_values(e);
  VF_CHECK(b.size() == set.size(), "allowed values lost: " << ctx);
  for (std::size_t i = 0; i < b.size(); i++)
    VF_CHECK(gv::matches(b[i], as(set[i])), "allowed value becomes " << gv::show(b[i]) << ": " << ctx);
  ossia::domain f = d;
  ossia::convert_compatible_domain(f, gv::vt(to));
  VF_CHECK(f == e, "in-place conversion differs: " << ctx);
  // list bounds to vector bounds, component by component
  const int n = (int)c.range(2, 4);
  ossia::vector_domain v;
  std::vector<std::optional<float>> mn(4), mx(4);
  for (int i = 0; i < n; i++)
  {
    if (c.coin())
    {
      v.min.push_back(ossia::value{(int)c.range(-9, 9)});
      mn[i] = (float)v.min.back().get<int>();
    }
    else
      v.min.push_back(ossia::value{});
    if (c.coin())
    {
      v.max.push_back(ossia::value{(float)c.range(-9, 9)});
      mx[i] = v.max.back().get<float>();
    }
    else
      v.max.push_back(ossia::value{});
  }
  auto g = ossia::convert_domain(ossia::domain{v}, ossia::val_type::VEC4F);
  auto p = g.v.target<ossia::vecf_domain<4>>();
  VF_CHECK(p, "list domain did not become a vector domain");
  for (int i = 0; i < 4; i++)
    VF_CHECK(p->min[i] == mn[i] && p->max[i] == mx[i], "component " << i << " bounds wrong");
}

// bounds given as lists of numbers, as found in announcements
VF_PROP(from_lists, 60000, 600000)
{
  const int n = (int)c.range(1, 5);
  std::vector<ossia::value> mn, mx;
  for (int i = 0; i < n; i++)
  {
    mn.push_back(ossia::value{(float)c.range(-20, 0)});
    mx.push_back(ossia::value{(float)c.range(1, 20)});
  }
  static const ossia::val_type VT[]
      = {ossia::val_type::FLOAT, ossia::val_type::VEC2F, ossia::val_type::VEC3F,
         ossia::val_type::VEC4F, ossia::val_type::LIST};
  auto d = ossia::make_domain_from_minmax(mn, mx, VT[n - 1]);
  c.nontrivial(n > 1);
  VF_NOTE(n << " components");
  VF_CHECK(bool(d), "no domain");
  ossia::value lo = ossia::get_min(d), hi = ossia::get_max(d);
  auto comp = [&](const ossia::value& v, int i) {
    if (n == 1)
      return v.get<float>();
    if (n == 5)
      return v.get<std::vector<ossia::value>>().at(i).get<float>();
    return ossia::convert<std::vector<ossia::value>>(v).at(i).get<float>();
  };
  for (int i = 0; i < n; i++)
  {
    VF_CHECK(comp(lo, i) == mn[i].get<float>(), "minimum " << i << " is " << gv::show(lo));
    VF_CHECK(comp(hi, i) == mx[i].get<float>(), "maximum " << i << " is " << gv::show(hi));
  }
}
