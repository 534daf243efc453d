// C42: node attributes and creation of parameters from type descriptions.
#include "gen_value.hpp"

#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>

using namespace ossia;
using namespace ossia::net;
using gv::MV;
const char* const vf::rule
    = "histories of attribute settings, removals and copies on nodes; type descriptions by value type, unit, "
      "extended type, known name in any case; non-trivial: an attribute is set and later read, or a parameter results";

struct modified
{
  std::vector<std::pair<const node_base*, std::string>> v;
  void on(node_base& n, const std::string& s) { v.emplace_back(&n, s); }
};

struct A // model of the attributes of a node
{
  std::optional<tags> tg;
  std::optional<std::string> desc, name, version, creator, ext;
  std::optional<float> prio;
  std::optional<int> rate;
  std::optional<double> step;
  std::optional<instance_bounds> inst;
  std::optional<ossia::value> def;
  bool zombie{}, hidden{}, safe{};
  std::map<std::string, int> custom;
};

static std::string text(vf::Case& c)
{
  std::string s;
  for (int i = 0; c.more(i, 12, 4); i++)
    s.push_back((char)(c.chance(1, 10) ? c.range(1, 255) : c.range('a', 'z')));
  return s;
}

VF_PROP(histories, 30000, 400000)
{
  generic_device dev{"dev"};
  modified mods;
  dev.on_attribute_modified.connect<&modified::on>(mods);
  const int K = (int)c.range(1, 3);
  std::vector<node_base*> nodes;
  std::vector<extended_attributes> copies;
  std::vector<A> want(K), copied;
  for (int i = 0; i < K; i++)
    nodes.push_back(&create_node(dev, "/n"));
  const bool param = c.coin();
  if (param)
    for (auto n : nodes)
      n->create_parameter(val_type::INT);
  int sets = 0;
  std::string ctx;
  auto eq = [&](const extended_attributes& e, const A& a, const std::string& who) {
    VF_CHECK(get_tags(e) == a.tg, who << ": tags after " << ctx);
    VF_CHECK(get_description(e) == a.desc, who << ": description after " << ctx);
    VF_CHECK(get_app_name(e) == a.name, who << ": app name after " << ctx);
    VF_CHECK(get_app_version(e) == a.version, who << ": app version after " << ctx);
    VF_CHECK(get_app_creator(e) == a.creator, who << ": app creator after " << ctx);
    VF_CHECK(get_priority(e) == a.prio, who << ": priority after " << ctx);
    VF_CHECK(get_refresh_rate(e) == a.rate, who << ": refresh rate after " << ctx);
    VF_CHECK(get_value_step_size(e) == a.step, who << ": step size after " << ctx);
    VF_CHECK(get_instance_bounds(e) == a.inst, who << ": instance bounds after " << ctx);
    auto d = get_default_value(e);
    VF_CHECK(d.has_value() == a.def.has_value() && (!d || gv::matches(*d, gv::from_value(*a.def))), who << ": default value after " << ctx);
    VF_CHECK(get_zombie(e) == a.zombie && get_hidden(e) == a.hidden && get_recall_safe(e) == a.safe, who << ": flags after " << ctx);
    for (auto k : {"foo", "bar", "Foo"})
    {
      auto v = get_optional_attribute<int>(e, k);
      auto it = a.custom.find(k);
      VF_CHECK(v.has_value() == (it != a.custom.end()) && (!v || *v == it->second), who << ": attribute " << k << " after " << ctx);
      VF_CHECK(has_attribute(e, k) == (it != a.custom.end()), who << ": presence of " << k << " after " << ctx);
      VF_CHECK(!get_optional_attribute<std::string>(e, k), who << ": attribute read as another type after " << ctx);
    }
  };
  for (int step = 0; c.more(step, 30, 14); step++)
  {
    const int i = (int)c.draw(K);
    auto& n = *nodes[i];
    A& a = want[i];
    mods.v.clear();
    // what may be notified; when something visible changed it has to be
    std::string key;
    bool changed = false, redundant = false, quiet = false;
    auto opt = [&](auto& field, auto val, const char* k, auto setter) {
      using T = std::decay_t<decltype(*field)>;
      key = k;
      std::optional<T> v;
      if (c.chance(4, 5))
        v = val;
      if (c.chance(1, 6))
        v = field;
      ctx = std::string("setting of ") + k;
      redundant = v == field;
      setter(n, v);
      // empty texts and lists are the same as nothing
      if constexpr (requires(T t) { t.empty(); })
        if (v && v->empty())
          v.reset();
      changed = field != v;
      field = v;
      sets++;
    };
    auto flag = [&](bool& field, const char* k, auto setter) {
      key = k;
      const bool b = c.coin();
      ctx = std::string("setting of ") + k;
      setter(n, b);
      changed = b != field;
      redundant = !changed;
      field = b;
      sets++;
    };
    switch (c.draw(18))
    {
      case 0:
      {
        tags t;
        for (int k = 0; c.more(k, 4, 2); k++)
          t.push_back(text(c));
        const bool v = c.coin();
        opt(a.tg, t, "tags", [&](auto& n, auto o) { v || !o ? set_tags(n, o) : n.set(tags_attribute{}, *o); });
        break;
      }
      case 1:
        opt(a.desc, text(c), "description", [&](auto& n, auto o) {
          if (!o || c.coin() || o->find('\0') != o->npos)
            set_description(n, o);
          else
            set_description(n, o->c_str());
        });
        break;
      case 2:
        opt(a.name, text(c), "appName", [&](auto& n, auto o) { set_app_name(n, o); });
        break;
      case 3:
        opt(a.version, text(c), "appVersion", [&](auto& n, auto o) {
          if (o)
            set_app_version(n, o->c_str());
          else
            set_app_version(n, (const char*)nullptr);
        });
        break;
      case 4:
        opt(a.creator, text(c), "appCreator", [&](auto& n, auto o) { set_app_creator(n, o); });
        break;
      case 5:
        opt(a.prio, (float)c.range(-5, 5), "priority", [&](auto& n, auto o) { set_priority(n, o); });
        break;
      case 6:
        opt(a.rate, (int)c.range(-5, 500), "refreshRate", [&](auto& n, auto o) { set_refresh_rate(n, o); });
        break;
      case 7:
        opt(a.step, (double)c.range(0, 50) / 8., "valueStepsize", [&](auto& n, auto o) { set_value_step_size(n, o); });
        break;
      case 8:
        opt(a.inst, instance_bounds{(int)c.range(0, 3), (int)c.range(3, 9)}, "instanceBounds", [&](auto& n, auto o) { set_instance_bounds(n, o); });
        break;
      case 9:
      {
        key = "valueDefault";
        ctx = "setting of the default value";
        const auto old = a.def;
        if (c.chance(1, 5))
        {
          set_default_value(n, std::nullopt);
          a.def.reset();
        }
        else
        {
          ossia::value v;
          switch (c.draw(7))
          {
            case 0:
              v = (int)c.range(-9, 9);
              set_default_value(n, v.get<int>());
              break;
            case 1:
              v = (float)c.range(-9, 9) / 2;
              set_default_value(n, v.get<float>());
              break;
            case 2:
              v = text(c);
              set_default_value(n, v.get<std::string>().c_str());
              break;
            case 3:
              v = c.coin();
              set_default_value(n, v.get<bool>());
              break;
            case 4:
              v = (char)c.range('a', 'z');
              set_default_value(n, v.get<char>());
              break;
            default:
              v = gv::to_value(gv::gen(c));
              if (c.coin())
                set_default_value(n, v);
              else if (param)
                n.get_parameter()->set_default_value(v);
              else
                set_default_value(n, ossia::value{v});
          }
          // a value equal to the one there may leave it
          if (a.def && *a.def == v)
          {
            auto d = get_default_value(n);
            VF_CHECK(d && *d == v, "default value lost after " << ctx);
            v = *d;
          }
          a.def = v;
          if (param)
          {
            auto d = n.get_parameter()->get_default_value();
            VF_CHECK(d && gv::matches(*d, gv::from_value(v)), "default value seen from the parameter");
          }
        }
        changed = old.has_value() != a.def.has_value() || (old && !(*old == *a.def));
        redundant = old == a.def;
        sets++;
        break;
      }
      case 10:
        flag(a.zombie, "zombie", [](auto& n, bool b) { set_zombie(n, b); });
        break;
      case 11:
        flag(a.hidden, "hidden", [](auto& n, bool b) { set_hidden(n, b); });
        break;
      case 12:
        flag(a.safe, "recallSafe", [](auto& n, bool b) { set_recall_safe(n, b); });
        break;
      case 13:
      case 14: // anything else
      {
        key = c.pick({"foo", "bar", "Foo"});
        ctx = "setting of " + key;
        const int v = (int)c.range(0, 3);
        auto it = a.custom.find(key);
        redundant = it != a.custom.end() && it->second == v;
        changed = !redundant;
        if (c.coin())
          n.set(ossia::string_view(key), v);
        else
          n.set(ossia::string_view(key), std::optional<int>{v});
        a.custom[key] = v;
        break;
      }
      case 15:
      {
        key = c.pick({"foo", "bar", "Foo"});
        ctx = "removal of " + key;
        redundant = !a.custom.count(key);
        changed = !redundant;
        n.set(ossia::string_view(key), std::optional<int>{});
        a.custom.erase(key);
        break;
      }
      case 16:
        ctx = "a copy taken";
        quiet = true;
        copies.push_back(n.get_extended_attributes());
        copied.push_back(a);
        break;
      default:
        if (!copies.empty())
        {
          ctx = "a copy given";
          quiet = true;
          const std::size_t k = c.draw(copies.size());
          const bool ext = c.coin();
          n.set_extended_attributes(copies[k]);
          a = copied[k];
          (void)ext;
          mods.v.clear();
        }
        else
          quiet = true;
    }
    VF_NOTE(ctx);
    if (changed)
      VF_CHECK(mods.v == (decltype(mods.v){{&n, key}}), mods.v.size() << " notifications" << (mods.v.empty() ? "" : " of " + mods.v[0].second) << " after " << ctx);
    else if (redundant || quiet)
      VF_CHECK(mods.v.empty(), "a notification without a change after " << ctx);
    for (int k = 0; k < K; k++)
    {
      eq(*nodes[k], want[k], "node " + std::to_string(k));
      eq(nodes[k]->get_extended_attributes(), want[k], "node " + std::to_string(k));
    }
    for (std::size_t k = 0; k < copies.size(); k++)
      eq(copies[k], copied[k], "a copy");
  }
  c.nontrivial(sets >= 2);
}

// the same accessors on descriptions
VF_PROP(on_maps, 30000, 300000)
{
  extended_attributes e;
  std::map<std::string, std::string> texts;
  std::map<std::string, int> ints;
  std::set<std::string> flags;
  static const char* const K[] = {"a", "b", "ab", "A", "", "description_"};
  for (int i = 0; c.more(i, 30, 15); i++)
  {
    std::string k = K[c.draw(std::size(K))];
    auto drop = [&] {
      texts.erase(k);
      ints.erase(k);
      flags.erase(k);
    };
    switch (c.draw(6))
    {
      case 0:
      {
        std::string t = text(c);
        if (c.coin())
          set_attribute(e, k, t);
        else
          set_optional_attribute(e, k, std::optional<std::string>{t});
        drop();
        if (!t.empty())
          texts[k] = t;
        break;
      }
      case 1:
      {
        const int v = (int)c.range(-2, 2);
        if (c.coin())
          set_attribute(e, k, v);
        else
          set_optional_attribute(e, k, std::optional<int>{v});
        drop();
        ints[k] = v;
        break;
      }
      case 2:
      {
        const bool had = texts.count(k) || ints.count(k) || flags.count(k);
        set_attribute(e, k);
        if (!had)
          flags.insert(k);
        break;
      }
      case 3:
        switch (c.draw(3))
        {
          case 0:
            unset_attribute(e, k);
            break;
          case 1:
            set_attribute(e, k, std::nullopt);
            break;
          default:
            set_optional_attribute(e, k, std::optional<int>{});
        }
        drop();
        break;
      default:
        c.nontrivial();
    }
    for (auto q : K)
    {
      const bool t = texts.count(q), n = ints.count(q), f = flags.count(q);
      VF_CHECK(has_attribute(e, q) == (t || n || f), "presence of '" << q << "'");
      auto gt = get_optional_attribute<std::string>(e, q);
      auto gi = get_optional_attribute<int>(e, q);
      VF_CHECK(gt.has_value() == t && (!t || *gt == texts[q]), "text of '" << q << "'");
      VF_CHECK(gi.has_value() == n && (!n || *gi == ints[q]), "number of '" << q << "'");
      VF_CHECK(get_attribute<int>(e, q) == (n ? ints[q] : 0), "number of '" << q << "' by value");
      VF_CHECK(get_attribute<std::string>(e, q) == (t ? texts[q] : ""), "text of '" << q << "' by value");
    }
  }
}

// ---------------------------------------------------------------- types
static const val_type TYPES[] = {val_type::FLOAT, val_type::INT,    val_type::VEC2F,  val_type::VEC3F, val_type::VEC4F,
                                 val_type::IMPULSE, val_type::BOOL, val_type::STRING, val_type::LIST,  val_type::CHAR};
static const std::pair<const char*, val_type> NAMES[] = {
    {"int", val_type::INT},       {"integer", val_type::INT},   {"int32", val_type::INT},     {"i32", val_type::INT},
    {"float", val_type::FLOAT},   {"number", val_type::FLOAT},  {"decimal", val_type::FLOAT}, {"real", val_type::FLOAT},
    {"string", val_type::STRING}, {"str", val_type::STRING},    {"symbol", val_type::STRING}, {"bool", val_type::BOOL},
    {"boolean", val_type::BOOL},  {"char", val_type::CHAR},     {"byte", val_type::CHAR},     {"vec2", val_type::VEC2F},
    {"vec3", val_type::VEC3F},    {"vec4", val_type::VEC4F},    {"vec2f", val_type::VEC2F},   {"vec3f", val_type::VEC3F},
    {"vec4f", val_type::VEC4F},   {"pulse", val_type::IMPULSE}, {"impulse", val_type::IMPULSE}, {"bang", val_type::IMPULSE},
    {"vector2", val_type::VEC2F}, {"rect", val_type::VEC4F},    {"size", val_type::VEC2F},    {"character", val_type::CHAR}};
static std::vector<std::pair<std::string, extended_type>> ext_names()
{
  return {{"path", filesystem_path_type()}, {"file", filesystem_path_type()}, {"folder", filesystem_path_type()},
          {"buffer", generic_buffer_type()}, {"blob", generic_buffer_type()}, {"bytearray", generic_buffer_type()},
          {"filepath", filesystem_path_type()}, {"vecf", float_array_type()}, {"list", list_type()}, {"tuple", list_type()},
          {"array", list_type()}, {"floatArray", float_list_type()}, {"integerArray", integer_list_type()},
          {"stringArray", string_list_type()}, {"floatlist", float_list_type()}, {"intlist", integer_list_type()},
          {"stringlist", string_list_type()}, {"intarray", integer_list_type()}};
}
static val_type ext_under(const extended_type& e)
{
  if (e == generic_buffer_type() || e == filesystem_path_type() || e == url_type())
    return val_type::STRING;
  return val_type::LIST;
}
// a few units of each kind: name in full, unit, type
struct UnitRow
{
  const char* name;
  unit_t u;
  val_type t;
};
static const std::vector<UnitRow>& units()
{
  static const std::vector<UnitRow> v{
      {"distance.cm", centimeter_u{}, val_type::FLOAT},  {"distance.m", meter_u{}, val_type::FLOAT},
      {"position.xyz", cartesian_3d_u{}, val_type::VEC3F}, {"position.xy", cartesian_2d_u{}, val_type::VEC2F},
      {"color.rgb", rgb_u{}, val_type::VEC3F},           {"color.argb", argb_u{}, val_type::VEC4F},
      {"gain.db", decibel_u{}, val_type::FLOAT},         {"time.second", second_u{}, val_type::FLOAT},
      {"angle.degree", degree_u{}, val_type::FLOAT},     {"orientation.quaternion", quaternion_u{}, val_type::VEC4F},
      {"orientation.euler", euler_u{}, val_type::VEC3F}, {"speed.km/h", kilometer_per_hour_u{}, val_type::FLOAT},
      {"time.bpm", bpm_u{}, val_type::FLOAT}};
  return v;
}
static std::string any_case(vf::Case& c, std::string s)
{
  if (c.coin())
    for (auto& ch : s)
      if (c.coin())
        ch = std::isupper((unsigned char)ch) ? std::tolower(ch) : std::toupper(ch);
  return s;
}

VF_PROP(types, 30000, 300000)
{
  generic_device dev{"dev"};
  auto& n = create_node(dev, "/n");
  const bool had = c.coin();
  if (had)
    n.create_parameter(TYPES[c.draw(std::size(TYPES))]);
  auto before = n.get_parameter();
  complex_type ct;
  val_type want{};
  unit_t unit;
  std::string ext, name;
  bool unknown = false;
  switch (c.draw(4))
  {
    case 0:
      if (c.coin())
      {
        want = TYPES[c.draw(std::size(TYPES))];
        ct = want;
      }
      else
      {
        auto& [s, t] = NAMES[c.draw(std::size(NAMES))];
        name = s;
        want = t;
      }
      break;
    case 1:
    {
      auto& u = units()[c.draw(units().size())];
      unit = u.u;
      want = u.t;
      if (c.coin())
        ct = u.u;
      else
        name = u.name;
      break;
    }
    case 2:
    {
      static const auto e = ext_names();
      auto& [s, t] = e[c.draw(e.size())];
      ext = t;
      want = ext_under(t);
      if (c.coin())
        ct = extended_type{t};
      else
        name = s;
      break;
    }
    default:
      unknown = true;
      name = c.pick({"", "flot", "intt", "distance.foo", "vec5", "lists", "foo", "bool "});
  }
  VF_NOTE("type " << name << " expected type " << (int)want << " unit " << ossia::get_pretty_unit_text(unit) << " extended " << ext);
  parameter_base* p{};
  node_base* at = &n;
  if (name.empty() && !unknown)
  {
    VF_CHECK(underlying_type(ct) == want, "underlying type " << (int)underlying_type(ct));
    p = setup_parameter(ct, n);
  }
  else
  {
    const auto spelt = any_case(c, name);
    if (c.coin())
      p = try_setup_parameter(spelt, n);
    else
    {
      const auto kids = dev.get_root_node().children_names().size();
      p = ossia::create_parameter(dev.get_root_node(), "child", spelt);
      VF_CHECK(dev.get_root_node().children_names().size() == kids + (unknown ? 0 : 1), "nodes after the creation of a parameter of type " << spelt);
      if (p)
        at = &p->get_node();
    }
    auto d = default_parameter_for_type(name);
    VF_CHECK(!!d == !unknown, "default parameter for " << name);
    if (d)
    {
      VF_CHECK(underlying_type(d->type) == want, "default parameter for " << name << " has type " << (int)underlying_type(d->type));
      VF_CHECK(d->unit == unit, "default parameter for " << name << " has another unit");
    }
  }
  if (unknown)
  {
    VF_CHECK(!p, "a parameter came from the unknown type '" << name << "'");
    VF_CHECK(n.get_parameter() == before, "the parameter changed");
    return;
  }
  c.nontrivial();
  VF_CHECK(p && p == at->get_parameter(), "no parameter");
  if (at == &n && had)
    VF_CHECK(p == before, "the parameter was replaced");
  VF_CHECK(p->get_value_type() == want, "value type " << (int)p->get_value_type() << " of " << name);
  VF_CHECK(p->value().get_type() == want, "type of the value");
  if (unit)
    VF_CHECK(p->get_unit() == unit, "unit");
  if (!ext.empty())
    VF_CHECK(get_extended_type(*at) == ext, "extended type");
  else
  {
    // what an extended type is when none was given
    auto e = get_extended_type(*at);
    if (want == val_type::VEC2F || want == val_type::VEC3F || want == val_type::VEC4F)
      VF_CHECK(e == float_array_type(), "extended type of a vector");
    else if (want == val_type::LIST)
      VF_CHECK(e == list_type(), "extended type of a list");
    else
      VF_CHECK(!e, "extended type of another value");
  }
  // and changing it afterwards
  auto& u2 = units()[c.draw(units().size())];
  switch (c.draw(3))
  {
    case 0:
    {
      auto t = TYPES[c.draw(std::size(TYPES))];
      update_parameter_type(complex_type{t}, *p);
      VF_CHECK(p->get_value_type() == t && p->value().get_type() == t, "type after a change");
      break;
    }
    case 1:
      update_parameter_type(complex_type{u2.u}, *p);
      VF_CHECK(p->get_value_type() == u2.t && p->get_unit() == u2.u && p->value().get_type() == u2.t, "unit after a change");
      break;
    default:
    {
      auto e = ext_names()[c.draw(ext_names().size())].second;
      update_parameter_type(complex_type{e}, *p);
      VF_CHECK(p->get_value_type() == ext_under(e) && get_extended_type(*at) == e, "extended type after a change");
    }
  }
  VF_CHECK(p == at->get_parameter(), "the parameter was replaced by a change of type");
  // conversions between complex types
  auto& u3 = units()[c.draw(units().size())];
  auto v = ossia::value{(float)c.range(-9, 9)};
  auto conv = ossia::convert(v, complex_type{u2.u}, complex_type{u3.u});
  VF_CHECK(conv == ossia::convert(v, u2.u, u3.u), "conversion between units given as types");
  VF_CHECK(gv::matches(ossia::convert(v, complex_type{val_type::FLOAT}, complex_type{u3.u}), gv::from_value(v)), "conversion without a source unit");
}
