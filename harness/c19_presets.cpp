// C19: presets: what is saved from a tree is what is given back to it.
#include "gen_value.hpp"
#include "vf.hpp"

#include <ossia/detail/json.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/common/extended_types.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/value/value_conversion.hpp>
#include <ossia/preset/preset.hpp>

#include <cmath>
#include <regex>
#include <set>
#include <unistd.h>

using namespace ossia;
using namespace ossia::net;
namespace ps = ossia::presets;

const char* const vf::rule
    = "trees of up to 16 nodes (instances, nodes with both a value and children, read-only, priorities, protected ones) "
      "with values of every type, saved as text and as JSON, read back, applied to the same tree after changes, to an "
      "empty one and to others; damaged presets; non-trivial: at least three values in the preset, one of them a text, a "
      "list or a vector";

namespace
{
// foo.1, foo.1.2
bool instance(const std::string& s)
{
  bool index = false;
  for(auto i = s.find('.'); i < s.size();)
  {
    auto j = std::min(s.find('.', i + 1), s.size());
    auto k = s.substr(i + 1, j - i - 1);
    if(k.empty() || !std::all_of(k.begin(), k.end(), [](char c) { return c >= '0' && c <= '9'; }) || (k != "0" && k[0] == '0'))
      return false;
    index = true;
    i = j;
  }
  return index;
}
std::string name(vf::Case& c, bool dots)
{
  for(;;)
  {
    auto s = c.pick({"a", "b", "c", "foo", "bar", "baz", "x=y", "p-q", "A_1", "foo bar", "(z)", "~t", "foo.1", "foo.2", "bar.0", "b.12", "a.1", "v1.x", "foo.", "a.b", "foo.-1", "foo.01", "v1.2.x", "a10", "b0", "foo.10", "."});
    // names with an index are instances: JSON lists group them
    if(dots || !instance(s))
      return s;
  }
}
float num(vf::Case& c, bool finite)
{
  float f = c.chance(1, 3) ? c.f32() : (float)c.range(-8, 8) / 4.f;
  if(finite && !std::isfinite(f))
    f = 0.5f;
  return f;
}
constexpr val_type TYPES[]
    = {val_type::FLOAT, val_type::INT, val_type::BOOL, val_type::CHAR, val_type::STRING, val_type::VEC2F, val_type::VEC3F, val_type::VEC4F, val_type::LIST, val_type::IMPULSE};

// json: a list in which JSON keeps all the types
ossia::value gen(vf::Case& c, val_type t, bool json, int depth = 0)
{
  switch(t)
  {
    case val_type::FLOAT: return num(c, false);
    case val_type::INT: return (int)c.i32();
    case val_type::BOOL: return c.coin();
    case val_type::CHAR: return (char)c.range(json ? 32 : -128, json ? 126 : 127);
    case val_type::STRING: return c.chance(1, 4) ? c.bytes(8) : c.str(12, "ab 1\"'\\,[]:/{}\t\n~#");
    case val_type::VEC2F: return vec2f{num(c, false), num(c, false)};
    case val_type::VEC3F: return vec3f{num(c, false), num(c, false), num(c, false)};
    case val_type::VEC4F: return vec4f{num(c, false), num(c, false), num(c, false), num(c, false)};
    case val_type::LIST: {
      std::vector<ossia::value> l;
      for(std::size_t n = 0; c.more(n, 6, 3); n++)
      {
        auto e = TYPES[c.draw(std::size(TYPES))];
        if(depth >= 2 && e == val_type::LIST)
          e = val_type::INT;
        if(json && (e == val_type::CHAR || e == val_type::IMPULSE))
          e = val_type::STRING;
        auto v = gen(c, e, json, depth + 1);
        // in JSON, a list of a few floats is a vector
        if(auto k = v.target<std::vector<ossia::value>>(); k && json && k->size() >= 2 && k->size() <= 4
           && std::all_of(k->begin(), k->end(), [](auto& x) { return x.get_type() == val_type::FLOAT; }))
          k->push_back(1);
        l.push_back(std::move(v));
      }
      return l;
    }
    default: return impulse{};
  }
}

void fill(vf::Case& c, generic_device& d, bool dots, bool json, bool attributes = true)
{
  std::vector<node_base*> nodes{&d.get_root_node()};
  for(std::size_t i = 0; c.more(i, 16, 8); i++)
  {
    auto n = nodes[c.draw(nodes.size())]->create_child(name(c, dots));
    if(!dots && instance(n->get_name()))
    {
      n->get_parent()->remove_child(*n);
      continue;
    }
    nodes.push_back(n);
    if(c.chance(2, 3))
    {
      auto p = n->create_parameter(TYPES[c.draw(std::size(TYPES))]);
      p->set_value(gen(c, p->get_value_type(), json));
      if(attributes && c.chance(1, 6))
        p->set_access(c.coin() ? access_mode::GET : access_mode::SET);
    }
    if(attributes && c.chance(1, 5))
      set_priority(*n, (float)c.range(-2, 3));
    if(attributes && c.chance(1, 8))
      set_recall_safe(*n, true);
  }
}
void all(node_base& n, std::vector<node_base*>& v)
{
  for(auto& k : n.children())
  {
    v.push_back(k.get());
    all(*k, v);
  }
}
bool saved(node_base& n)
{
  auto p = n.get_parameter();
  return p && p->get_value_type() != val_type::IMPULSE && p->get_access() == access_mode::BI;
}
bool shielded(node_base& n)
{
  for(auto k = &n; k->get_parent(); k = k->get_parent())
    if(get_recall_safe(*k))
      return true;
  return false;
}
// NaN only equals itself here
std::string text(const ossia::value& v)
{
  auto s = gv::show(v);
  for(std::size_t p; (p = s.find("-nan")) != std::string::npos;)
    s.erase(p, 1);
  return s;
}
std::string address(node_base& n)
{
  std::string s;
  for(auto k = &n; k->get_parent(); k = k->get_parent())
    s = "/" + k->get_name() + s;
  return s;
}
bool telling(const ps::preset& p)
{
  return p.size() >= 3 && std::any_of(p.begin(), p.end(), [](auto& e) {
           return e.second.get_type() >= val_type::VEC2F && e.second.get_type() != val_type::INT
                  && e.second.get_type() != val_type::BOOL && e.second.get_type() != val_type::CHAR;
         });
}
void expect_preset(const ps::preset& p, device_base& d, const char* what)
{
  std::vector<node_base*> v;
  all(d.get_root_node(), v);
  std::map<std::string, std::string> m;
  for(auto n : v)
    if(saved(*n))
      m[address(*n)] = text(n->get_parameter()->value());
  std::map<std::string, std::string> got;
  for(auto& [k, val] : p)
    VF_CHECK(got.emplace(k, text(val)).second, what << ": " << k << " comes twice");
  for(auto& [k, val] : m)
  {
    auto it = got.find(k);
    VF_CHECK(it != got.end(), what << ": nothing for " << k);
    VF_CHECK(it->second == val, what << ": " << k << " is " << it->second << " instead of " << val);
  }
  for(auto& [k, val] : got)
    VF_CHECK(m.count(k), what << ": there is " << k << ", which is " << val);
}
// Reading a decimal number may miss it by a few units in the last place
bool same(const ossia::value& a, const ossia::value& b)
{
  auto near = [](float x, float y) {
    return x == y || (x != x && y != y) || std::abs((double)x - y) <= 1e-6 * std::abs((double)x) + 1e-44;
  };
  if(a.get_type() != b.get_type())
    return false;
  auto arr = [&](auto& x, auto& y) {
    for(std::size_t i = 0; i < x.size(); i++)
      if(!near(x[i], y[i]))
        return false;
    return true;
  };
  if(auto x = a.target<float>())
    return near(*x, b.get<float>());
  if(auto x = a.target<vec2f>())
    return arr(*x, b.get<vec2f>());
  if(auto x = a.target<vec3f>())
    return arr(*x, b.get<vec3f>());
  if(auto x = a.target<vec4f>())
    return arr(*x, b.get<vec4f>());
  if(auto x = a.target<std::vector<ossia::value>>())
  {
    auto& y = b.get<std::vector<ossia::value>>();
    if(x->size() != y.size())
      return false;
    for(std::size_t i = 0; i < x->size(); i++)
      if(!same((*x)[i], y[i]))
        return false;
    return true;
  }
  return text(a) == text(b);
}
// another value for everything
std::map<node_base*, std::string> scramble(vf::Case& c, device_base& d)
{
  std::vector<node_base*> v;
  all(d.get_root_node(), v);
  std::map<node_base*, std::string> m;
  for(auto n : v)
    if(auto p = n->get_parameter())
    {
      p->set_value(gen(c, p->get_value_type(), true));
      m[n] = text(p->value());
    }
  return m;
}
std::vector<node_base*>* applied;
std::string show(const ps::preset& p)
{
  std::string s;
  for(auto& [k, v] : p)
    s += k + "=" + gv::show(v) + " ";
  return s;
}
}

VF_PROP(text, 15000, 200000)
{
  generic_device d{"dev"};
  fill(c, d, true, false);
  auto preset = ps::make_preset(d.get_root_node());
  VF_NOTE(show(preset));
  expect_preset(preset, d, "make_preset");
  c.nontrivial(telling(preset));
  auto str = ps::to_string(preset);
  auto back = ps::from_string(str);
  VF_NOTE(str);
  VF_CHECK(back.size() == preset.size(), back.size() << " lines read instead of " << preset.size());
  for(std::size_t i = 0; i < preset.size(); i++)
  {
    VF_CHECK(back[i].first == preset[i].first, "the address " << preset[i].first << " reads as " << back[i].first);
    VF_CHECK(
        same(preset[i].second, back[i].second),
        preset[i].first << " reads as " << ::text(back[i].second) << " instead of " << ::text(preset[i].second));
  }
  // applied by line
  auto other = scramble(c, d);
  std::vector<node_base*> got;
  applied = &got;
  ps::apply_preset(str, d.get_root_node(), +[](node_base* n) { applied->push_back(n); });
  std::vector<node_base*> want;
  std::map<node_base*, ossia::value> values;
  for(auto& [k, v] : preset)
  {
    auto n = find_node(d.get_root_node(), k);
    VF_CHECK(n, "no " << k);
    if(!get_recall_safe(*n))
    {
      want.push_back(n);
      values[n] = v;
    }
  }
  VF_CHECK(got == want, got.size() << " nodes are given values instead of " << want.size());
  for(auto& [n, v] : other)
  {
    auto now = n->get_parameter()->value();
    auto it = values.find(n);
    VF_CHECK(
        it != values.end() ? same(it->second, now) : ::text(now) == v,
        address(*n) << " is " << ::text(now) << " after the preset instead of " << (it != values.end() ? ::text(it->second) : v));
  }
}

VF_PROP(json, 15000, 200000)
{
  generic_device d{"dev"};
  fill(c, d, true, true);
  std::vector<node_base*> nodes;
  all(d.get_root_node(), nodes);
  std::map<node_base*, std::string> before;
  for(auto n : nodes)
    if(n->get_parameter())
      before[n] = ::text(n->get_parameter()->value());
  // of the whole device, or of a node
  node_base* root = &d.get_root_node();
  if(!nodes.empty() && c.chance(1, 4))
    root = nodes[c.draw(nodes.size())];
  auto str = ps::make_json_preset(*root);
  VF_NOTE(str);
  c.nontrivial(telling(ps::make_preset(d.get_root_node())));
  auto other = scramble(c, d);
  std::vector<node_base*> got;
  applied = &got;
  VF_CHECK(ps::apply_json(str, *root, +[](node_base* n) { applied->push_back(n); }), "the preset is not understood");
  auto under = [&](node_base* n) {
    for(auto k = n->get_parent(); k; k = k->get_parent())
      if(k == root)
        return true;
    return false;
  };
  auto safe = [&](node_base* n) {
    for(auto k = n; k != root; k = k->get_parent())
      if(get_recall_safe(*k))
        return true;
    return false;
  };
  std::size_t count = 0;
  for(auto& [n, v] : other)
  {
    const bool given = under(n) && saved(*n) && !safe(n);
    count += given;
    auto now = ::text(n->get_parameter()->value());
    VF_CHECK(now == (given ? before[n] : v), address(*n) << " is " << now << " after the preset instead of " << (given ? before[n] : v));
  }
  VF_CHECK(got.size() == count, got.size() << " nodes are given values instead of " << count);
  // siblings by decreasing priority
  auto top = [](node_base* n, node_base* p) {
    while(n->get_parent() != p)
      n = n->get_parent();
    return n;
  };
  for(std::size_t i = 0; i + 1 < got.size(); i++)
  {
    auto common = got[i]->get_parent();
    auto in = [](node_base* n, node_base* p) {
      for(; n; n = n->get_parent())
        if(n == p)
          return true;
      return false;
    };
    while(!in(got[i + 1]->get_parent(), common))
      common = common->get_parent();
    auto a = top(got[i], common), b = top(got[i + 1], common);
    VF_CHECK(
        a == b || get_priority(*a) >= get_priority(*b),
        address(*got[i]) << " is given its value before " << address(*got[i + 1]) << " which has priority");
  }
}

// presets as lists of addresses and values
VF_PROP(lists, 15000, 200000)
{
  generic_device d{"dev"};
  fill(c, d, false, true, false);
  auto preset = ps::make_preset(d.get_root_node());
  c.nontrivial(telling(preset));
  VF_NOTE(show(preset));
  auto str = ps::write_json("dev", preset);
  VF_NOTE(str);
  auto back = ps::read_json(str);
  VF_CHECK(back.size() == preset.size(), back.size() << " values read instead of " << preset.size());
  for(auto& [k, v] : preset)
  {
    auto it = std::find_if(back.begin(), back.end(), [&, k = k](auto& e) { return e.first == k; });
    VF_CHECK(it != back.end(), "nothing is read for " << k);
    auto got = ossia::convert(it->second, v.get_type());
    VF_CHECK(::text(got) == ::text(v), k << " reads as " << ::text(it->second) << " instead of " << ::text(v));
    // only what JSON does not tell has another type
    if(v.get_type() != val_type::CHAR && v.get_type() != val_type::LIST)
      VF_CHECK(::text(it->second) == ::text(v), k << " reads as " << ::text(it->second) << " instead of " << ::text(v));
  }
  auto full = ps::read_json(str, false);
  VF_CHECK(full.size() == preset.size(), full.size() << " values read with the name of the device instead of " << preset.size());
  for(auto& [k, v] : full)
    VF_CHECK(k.substr(0, 5) == "/dev/", "the address " << k << " does not contain the device");

  // to the same tree
  std::map<node_base*, std::string> want;
  for(auto& [k, v] : preset)
    want[find_node(d.get_root_node(), k)] = ::text(v);
  auto other = scramble(c, d);
  const bool inner = std::any_of(want.begin(), want.end(), [](auto& e) { return !e.first->children().empty(); });
  switch(inner ? 1 : c.draw(3))
  {
    case 0: ps::apply_preset(d.get_root_node(), back, ps::keep_arch_on, {}, false, false); break;
    case 1: ps::apply_preset(d.get_root_node(), back, ps::keep_arch_off, {}, true, true); break;
    default: ps::apply_preset(d.get_root_node(), full); break;
  }
  for(auto& [n, v] : other)
  {
    auto it = want.find(n);
    auto now = ::text(n->get_parameter()->value());
    VF_CHECK(now == (it != want.end() ? it->second : v), address(*n) << " is " << now << " after the preset");
  }
  std::vector<node_base*> nodes;
  all(d.get_root_node(), nodes);
  for(auto n : nodes)
    VF_CHECK(!n->get_parameter() || other.count(n), "there is a new parameter at " << address(*n));

  // to an empty one
  generic_device e{"empty"};
  std::vector<std::string> told;
  ps::instance_functions fun;
  const auto re = c.pick({".*", "empty:/foo.*", ".*/a", "nothing"});
  fun.emplace_back(std::regex(re), [&](const node_base& n) { told.push_back(ossia::net::address_string_from_node(n)); });
  if(!preset.empty())
  {
    bool thrown = false;
    try
    {
      ps::apply_preset(e.get_root_node(), preset, ps::keep_arch_on, fun, true, true);
    }
    catch(const std::exception&)
    {
      thrown = true;
    }
    VF_CHECK(thrown && e.get_root_node().children().empty() && told.empty(), "the tree was not to be changed");
  }
  ps::apply_preset(e.get_root_node(), preset, ps::keep_arch_off, fun, true, true);
  expect_preset(preset, e, "created");
  std::vector<std::string> expected;
  std::regex r(re);
  nodes.clear();
  all(e.get_root_node(), nodes);
  for(auto n : nodes)
    if(auto s = "empty:" + address(*n); std::regex_match(s, r))
      expected.push_back(s);
  for(auto& s : told)
  {
    auto it = std::find(expected.begin(), expected.end(), s);
    VF_CHECK(it != expected.end(), "the function was called for " << s);
    expected.erase(it);
  }
  VF_CHECK(expected.empty(), "the function was not called for " << expected.front());
}

// in which instances are grouped
VF_PROP(instances, 5000, 60000)
{
  ps::preset p;
  std::set<std::string> seen;
  for(std::size_t i = 0; c.more(i, 10, 5); i++)
  {
    std::string k;
    for(std::size_t l = 0, n = 1 + c.draw(2); l < n; l++)
    {
      // instances of foo and bar, of which some may be missing
      switch(c.draw(3))
      {
        case 0: k += "/foo." + std::to_string(c.draw(c.chance(1, 8) ? 40 : 4)); break;
        case 1: k += "/bar." + std::to_string(c.draw(3)) + "." + std::to_string(c.draw(3)); break;
        default: k += "/in"; break;
      }
    }
    k += c.pick({"/a", "/b", "/c"});
    if(seen.insert(k).second)
    {
      auto t = TYPES[c.draw(std::size(TYPES) - 1)];
      p.emplace_back(k, gen(c, t == val_type::CHAR || t == val_type::LIST ? val_type::FLOAT : t, true));
    }
  }
  VF_NOTE(show(p));
  auto str = ps::write_json("dev", p);
  VF_NOTE(str);
  auto back = ps::read_json(str);
  std::map<std::string, std::string> got, want;
  for(auto& [k, v] : p)
    want[k] = ::text(v);
  for(auto& [k, v] : back)
    VF_CHECK(got.emplace(k, ::text(v)).second, k << " is read twice");
  for(auto& [k, v] : want)
    VF_CHECK(got.count(k) && got[k] == v, k << " reads as " << got[k] << " instead of " << v);
  for(auto& [k, v] : got)
    VF_CHECK(want.count(k), k << " is read, as " << v);
  c.nontrivial(p.size() >= 3);
}

// a preset for another tree
VF_PROP(elsewhere, 15000, 200000)
{
  generic_device d{"dev"};
  fill(c, d, true, true, false);
  std::map<std::string, std::string> before;
  std::map<std::string, ossia::value> current;
  std::vector<node_base*> nodes;
  all(d.get_root_node(), nodes);
  for(auto n : nodes)
    if(n->get_parameter())
      current[address(*n)] = n->get_parameter()->value();
  for(auto n : nodes)
    before[address(*n)] = n->get_parameter() ? ::text(n->get_parameter()->value()) : "";
  // one address
  std::string key;
  if(!nodes.empty() && c.chance(2, 3))
    key = address(*nodes[c.draw(nodes.size())]);
  if(key.empty() || c.chance(1, 3))
    key += "/" + name(c, true);
  if(c.chance(1, 4))
    key += ".0";
  const auto type = TYPES[c.draw(std::size(TYPES))];
  const auto v = gen(c, type, true);
  const bool keep = c.coin();
  const bool terminal = c.coin();
  VF_NOTE(key << " = " << gv::show(v) << (keep ? " keep" : "") << (terminal ? " terminal" : ""));
  for(auto& [k, x] : before)
    VF_NOTE(k << " " << x);
  // what it designates: each name, or without its .0 when there is no such node
  std::string real;
  node_base* n = &d.get_root_node();
  {
    std::vector<std::string> keys;
    for(std::size_t i = 1, j; i <= key.size(); i = j + 1)
    {
      j = std::min(key.find('/', i), key.size());
      keys.push_back(key.substr(i, j - i));
    }
    for(auto& k : keys)
    {
      auto cut = k.size() > 2 && k.substr(k.size() - 2) == ".0" ? k.substr(0, k.size() - 2) : k;
      auto next = n ? n->find_child(k) : nullptr;
      std::string used = k;
      if(!next && n && cut != k && (next = n->find_child(cut)))
        used = cut;
      n = next;
      real += "/" + used;
    }
  }
  bool thrown = false;
  try
  {
    ps::apply_preset(d.get_root_node(), {{key, v}}, keep ? ps::keep_arch_on : ps::keep_arch_off, {}, !terminal, !terminal);
  }
  catch(const std::exception& e)
  {
    VF_NOTE("thrown: " << e.what());
    thrown = true;
  }
  const bool refused = n ? (terminal && !n->children().empty()) || (keep && !n->get_parameter()) : keep;
  VF_CHECK(thrown == refused, "the preset is " << (thrown ? "" : "not ") << "refused");
  auto after = before;
  if(!refused)
  {
    for(std::size_t i = 1; i < real.size(); i++)
      if(real[i] == '/')
        after.emplace(real.substr(0, i), "");
    if(auto it = before.find(real); it != before.end() && !it->second.empty())
      after[real] = ::text(ossia::convert(v, current[real]));
    else
      after[real] = ::text(v);
  }
  nodes.clear();
  all(d.get_root_node(), nodes);
  for(auto k : nodes)
  {
    auto it = after.find(address(*k));
    VF_CHECK(it != after.end(), "there is " << address(*k));
    auto now = k->get_parameter() ? ::text(k->get_parameter()->value()) : "";
    VF_CHECK(now == it->second, it->first << " is " << now << " instead of " << it->second);
  }
  VF_CHECK(nodes.size() == after.size(), nodes.size() << " nodes instead of " << after.size());
  c.nontrivial(before.size() >= 3 && !refused);

  // lookup by address with the device
  {
    std::string a = "/dev";
    node_base* x = &d.get_root_node();
    for(std::size_t i = 0; c.more(i, 4, 2); i++)
    {
      std::string s;
      if(x && !x->children().empty() && c.chance(3, 4))
        s = x->children()[c.draw(x->children().size())]->get_name();
      else
        s = name(c, true);
      a += "/" + s;
      x = x ? x->find_child(s) : nullptr;
    }
    VF_CHECK(ps::get_node(d.get_root_node(), a) == x, a << (x ? " is not found" : " is found though there is no such node"));
    VF_CHECK(!ps::get_node(d.get_root_node(), a + "/none"), a + "/none is found");
    VF_CHECK(!ps::get_node(d.get_root_node(), "/other"), "/other is found");
  }
}

// The description of a device
VF_PROP(device, 8000, 80000)
{
  generic_device d{"dev"};
  fill(c, d, true, true);
  std::vector<node_base*> nodes;
  all(d.get_root_node(), nodes);
  for(auto n : nodes)
    if(auto p = n->get_parameter())
    {
      if(c.coin())
        set_default_value(*n, gen(c, p->get_value_type(), true));
      if(c.coin())
        set_description(*n, c.str(6, "ab \"\\"));
      if(c.coin())
        set_value_step_size(*n, 0.5);
      if(c.chance(1, 4))
        set_instance_bounds(*n, instance_bounds{1, (int32_t)c.range(2, 9)});
      if(p->get_value_type() == val_type::STRING && c.chance(1, 3))
        set_extended_type(*n, filesystem_path_type());
      if(p->get_value_type() == val_type::INT && c.coin())
        p->set_domain(make_domain((int)c.range(-9, 0), (int)c.range(1, 9)));
      if(p->get_value_type() == val_type::FLOAT && c.coin())
        p->set_domain(make_domain((float)c.range(-9, 0), (float)c.range(1, 9)));
    }
  if(c.coin())
    set_app_name(d.get_root_node(), "app");
  if(c.coin())
    set_app_version(d.get_root_node(), "1.0");
  if(c.coin())
    set_app_creator(d.get_root_node(), "me");
  auto str = ps::write_json(d);
  VF_NOTE(str);
  rapidjson::Document doc;
  doc.Parse<rapidjson::kParseNanAndInfFlag>(str.data(), str.size());
  VF_CHECK(!doc.HasParseError(), "the description is not JSON");
  auto has = [&](auto& o, const char* k, const char* v) {
    if(v)
      VF_CHECK(o.HasMember(k) && o[k].IsString() && std::string(o[k].GetString()) == v, k << " is not " << v);
    else
      VF_CHECK(!o.HasMember(k), "there is " << k);
  };
  has(doc, "appName", get_app_name(d.get_root_node()) ? "app" : nullptr);
  has(doc, "appVersion", get_app_version(d.get_root_node()) ? "1.0" : nullptr);
  has(doc, "appCreator", get_app_creator(d.get_root_node()) ? "me" : nullptr);
  VF_CHECK(doc.HasMember("dev"), "the device is missing");
  int count = 0;
  for(auto n : nodes)
  {
    const rapidjson::Value* o = &doc["dev"];
    std::vector<node_base*> chain;
    for(auto k = n; k->get_parent(); k = k->get_parent())
      chain.insert(chain.begin(), k);
    for(auto k : chain)
    {
      VF_CHECK(o->IsObject() && o->HasMember(k->get_name().c_str()), address(*n) << " is missing");
      o = &(*o)[k->get_name().c_str()];
    }
    auto p = n->get_parameter();
    if(!p)
    {
      has(*o, "type", nullptr);
      continue;
    }
    count++;
    const char* type = nullptr;
    switch(p->get_value_type())
    {
      case val_type::IMPULSE: type = "impulse"; break;
      case val_type::INT: type = "integer"; break;
      case val_type::FLOAT: type = "decimal"; break;
      case val_type::BOOL: type = "boolean"; break;
      case val_type::CHAR: type = "char"; break;
      case val_type::STRING: type = get_extended_type(*n) ? "filepath" : "string"; break;
      default: break;
    }
    has(*o, "type", type);
    auto desc = get_description(*n);
    has(*o, "description", desc ? desc->c_str() : nullptr);
    auto ib = get_instance_bounds(*n);
    has(*o, "instanceBounds", ib ? ("1 " + std::to_string(ib->max_instances)).c_str() : nullptr);
    const bool number = p->get_value_type() == val_type::INT || p->get_value_type() == val_type::FLOAT;
    if(number)
    {
      VF_CHECK(o->HasMember("valueStepSize") == (bool)get_value_step_size(*n), address(*n) << ": valueStepSize");
      VF_CHECK(o->HasMember("rangeBounds") == (bool)p->get_domain(), address(*n) << ": rangeBounds");
    }
    auto def = get_default_value(*n);
    if(type && p->get_value_type() != val_type::IMPULSE)
    {
      VF_CHECK(o->HasMember("valueDefault") == (bool)def, address(*n) << ": valueDefault");
      if(def)
      {
        auto& x = (*o)["valueDefault"];
        if(auto k = def->target<int>())
          VF_CHECK(x.IsInt() && x.GetInt() == *k, address(*n) << ": valueDefault");
        if(auto k = def->target<float>())
          VF_CHECK(x.IsNumber() && (x.GetFloat() == *k || *k != *k), address(*n) << ": valueDefault");
        if(auto k = def->target<bool>())
          VF_CHECK(x.IsBool() && x.GetBool() == *k, address(*n) << ": valueDefault");
        if(auto k = def->target<std::string>())
          VF_CHECK(x.IsString() && std::string(x.GetString(), x.GetStringLength()) == *k, address(*n) << ": valueDefault");
      }
    }
  }
  c.nontrivial(count >= 3);

  // and its values
  auto s = ps::to_string(d);
  VF_CHECK(s.front() == '[' && s.back() == ']', "the text is " << s);
  for(auto n : nodes)
    if(auto p = n->get_parameter(); p && n->children().empty())
    {
      std::string line = "dev" + address(*n) + ": ";
      auto v = p->value();
      if(auto k = v.target<int>())
        line += "Int " + std::to_string(*k);
      else if(auto k = v.target<bool>())
        line += *k ? "Bool 1" : "Bool 0";
      else if(auto k = v.target<std::string>())
        line += "String " + *k;
      VF_CHECK(s.find(line) != std::string::npos, "there is no " << line << " in " << s);
    }
}

VF_PROP(damaged, 15000, 200000)
{
  generic_device d{"dev"};
  fill(c, d, true, true);
  const int kind = (int)c.draw(3);
  auto preset = ps::make_preset(d.get_root_node());
  auto str = kind == 0 ? ps::to_string(preset) : kind == 1 ? ps::make_json_preset(d.get_root_node()) : ps::write_json("dev", preset);
  for(std::size_t i = 0; c.more(i, 6, 2) && !str.empty(); i++)
  {
    auto p = c.draw(str.size()), n = 1 + c.draw(std::min<std::size_t>(str.size() - p, 6));
    switch(c.draw(4))
    {
      case 0: str.erase(p, n); break;
      case 1: str.insert(p, str.substr(c.draw(str.size()), 1 + c.draw(12))); break;
      case 2: str[p] = c.pick({'[', ']', '{', '}', '"', ',', ':', '0', '-', '.', 'e', '\\', '\t', '/', ' ', '\n'}); break;
      default: str[p] = (char)c.draw(256);
    }
  }
  std::vector<node_base*> nodes;
  all(d.get_root_node(), nodes);
  std::map<node_base*, val_type> types;
  for(auto n : nodes)
    if(auto p = n->get_parameter())
      types[n] = p->get_value_type();
  VF_NOTE(str);
  try
  {
    switch(kind)
    {
      case 0: ps::apply_preset(str, d.get_root_node()); break;
      case 1: ps::apply_json(str, d.get_root_node()); break;
      default: {
        auto p = ps::read_json(str, c.coin());
        ps::apply_preset(d.get_root_node(), p, ps::keep_arch_on, {}, c.coin(), c.coin());
      }
    }
  }
  catch(const std::exception&)
  {
    c.label("thrown");
  }
  std::vector<node_base*> after;
  all(d.get_root_node(), after);
  VF_CHECK(after == nodes, "the tree changed");
  for(auto& [n, t] : types)
    VF_CHECK(n->get_parameter()->value().get_type() == t, address(*n) << " has a value of another type: " << ::text(n->get_parameter()->value()));
  c.nontrivial(types.size() >= 3);
}

VF_PROP(files, 200, 2000)
{
  char dir[] = "/tmp/vf_presetXXXXXX";
  VF_CHECK(mkdtemp(dir), "no temporary directory");
  std::string f = std::string(dir) + "/p", content = c.bytes(200);
  ps::write_file(content, f);
  auto back = ps::read_file(f);
  unlink(f.c_str());
  rmdir(dir);
  VF_CHECK(back == content, "a file of " << content.size() << " bytes reads as " << back.size());
  c.nontrivial(!content.empty());
}
