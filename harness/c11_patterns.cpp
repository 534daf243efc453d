// C11: address patterns: finding, matching and creating nodes.
#include "vf.hpp"

#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/generic/generic_device.hpp>

#include <algorithm>
#include <functional>
#include <map>
#include <regex>

using namespace ossia;
using namespace ossia::net;
const char* const vf::rule
    = "trees of names over a small alphabet with instances, patterns built from literals, ?, *, !, classes, "
      "nested alternatives, numeric ranges, .., // and devices; non-trivial: the pattern matches at least one "
      "node and misses one, or creates at least two";

// ------------------------------------------------------------ pattern parts
struct Atom;
using Seq = std::vector<Atom>;
struct Atom
{
  enum K
  {
    LIT,
    ANY1,
    ANY,
    INST,
    CLS,
    ALT
  } k{LIT};
  std::string text; // as written; for LIT the literal too
  std::set<char> cls;
  std::vector<Seq> alts;
};
static bool name_char(char c)
{
  return c > 0 && (std::isalnum((unsigned char)c) || std::strchr(".~_()-: =", c));
}
static void ends(const Seq& p, std::size_t i, const std::string& s, std::size_t pos, std::set<std::size_t>& out)
{
  if (i == p.size())
  {
    out.insert(pos);
    return;
  }
  auto& a = p[i];
  switch (a.k)
  {
    case Atom::LIT:
      if (s.compare(pos, a.text.size(), a.text) == 0)
        ends(p, i + 1, s, pos + a.text.size(), out);
      break;
    case Atom::ANY1:
      ends(p, i + 1, s, pos, out);
      if (pos < s.size() && name_char(s[pos]))
        ends(p, i + 1, s, pos + 1, out);
      break;
    case Atom::ANY:
      for (std::size_t k = pos;; k++)
      {
        ends(p, i + 1, s, k, out);
        if (k >= s.size() || !name_char(s[k]))
          break;
      }
      break;
    case Atom::INST:
      ends(p, i + 1, s, pos, out);
      if (pos < s.size() && s[pos] == '.')
        for (std::size_t k = pos + 1; k < s.size() && name_char(s[k]) && s[k] != '.'; k++)
          ends(p, i + 1, s, k + 1, out);
      break;
    case Atom::CLS:
      if (pos < s.size() && a.cls.count(s[pos]))
        ends(p, i + 1, s, pos + 1, out);
      break;
    case Atom::ALT:
      for (auto& alt : a.alts)
      {
        std::set<std::size_t> e;
        ends(alt, 0, s, pos, e);
        for (auto k : e)
          ends(p, i + 1, s, k, out);
      }
  }
}
static bool matches(const Seq& p, const std::string& s)
{
  std::set<std::size_t> e;
  ends(p, 0, s, 0, e);
  return e.count(s.size());
}
static std::string text(const Seq& p)
{
  std::string s;
  for (auto& a : p)
    s += a.text;
  return s;
}
static std::vector<std::string> expansions(const Seq& p)
{
  std::vector<std::string> r{""};
  for (auto& a : p)
  {
    std::vector<std::string> opts;
    if (a.k == Atom::ALT)
      for (auto& alt : a.alts)
        for (auto& e : expansions(alt))
          opts.push_back(e);
    else if (a.k == Atom::CLS)
      for (char c : a.cls)
        opts.push_back(std::string(1, c));
    else
      opts.push_back(a.text);
    std::vector<std::string> n;
    for (auto& x : r)
      for (auto& y : opts)
        n.push_back(x + y);
    r = n;
  }
  return r;
}
static double how_many(const Seq& p)
{
  double r = 1;
  for (auto& a : p)
  {
    double n = a.k == Atom::ALT ? 0 : a.k == Atom::CLS ? (double)a.cls.size() : 1;
    for (auto& alt : a.alts)
      n += how_many(alt);
    r *= n;
  }
  return r;
}
static Atom lit(std::string s)
{
  Atom a;
  a.text = std::move(s);
  return a;
}
static std::string gen_lit(vf::Case& c)
{
  return c.pick<std::string>({"a", "b", "c", "ab", "1", ".1", "2", ".", "x.2", "=", "-", "A", " "});
}
static Seq gen_seq(vf::Case& c, int depth, bool wild);
static Atom gen_atom(vf::Case& c, int depth, bool wild)
{
  Atom a;
  switch (c.weighted({6, wild ? 2u : 0u, wild ? 3u : 0u, wild ? 1u : 0u, 2, depth ? 3u : 0u, 2}))
  {
    case 0:
      return lit(gen_lit(c));
    case 1:
      a.k = Atom::ANY1;
      a.text = "?";
      break;
    case 2:
      a.k = Atom::ANY;
      a.text = "*";
      break;
    case 3:
      a.k = Atom::INST;
      a.text = "!";
      break;
    case 4:
    {
      a.k = Atom::CLS;
      a.text = "[";
      for (int n = (int)c.range(1, 3); n-- > 0;)
        switch (c.draw(3))
        {
          case 0:
          {
            char x = c.pick({'a', 'b', 'c', '0', '1', '2', 'A'});
            a.text += x;
            a.cls.insert(x);
            break;
          }
          case 1:
            a.text += "a-c";
            a.cls.insert({'a', 'b', 'c'});
            break;
          default:
            a.text += "0-2";
            a.cls.insert({'0', '1', '2'});
        }
      a.text += "]";
      break;
    }
    case 5:
    {
      a.k = Atom::ALT;
      a.text = "{";
      const int n = (int)c.range(2, 3);
      for (int i = 0; i < n; i++)
      {
        a.alts.push_back(gen_seq(c, depth - 1, wild));
        a.text += (i ? (c.chance(1, 6) ? "|" : ",") : "") + text(a.alts.back());
      }
      a.text += "}";
      break;
    }
    default:
    {
      a.k = Atom::ALT;
      int x = (int)c.range(-3, 5), y = (int)c.range(-3, 12);
      a.text = "{" + std::to_string(x) + ".." + std::to_string(y);
      int step = 1;
      if (c.coin())
      {
        step = c.pick({1, 2, 3, 5, 20, -1, -2, -4});
        a.text += ".." + std::to_string(step);
      }
      a.text += "}";
      if (x > y)
        std::swap(x, y);
      if (step > 0)
        for (int k = x; k <= y; k += step)
          a.alts.push_back({lit(std::to_string(k))});
      else
        for (int k = y; k >= x; k += step)
          a.alts.push_back({lit(std::to_string(k))});
    }
  }
  return a;
}
static Seq gen_seq(vf::Case& c, int depth, bool wild)
{
  Seq s;
  const int n = (int)c.range(1, 3);
  for (int i = 0; i < n; i++)
    s.push_back(gen_atom(c, depth, wild));
  return s;
}
// a name that the pattern may produce
static std::string sample(vf::Case& c, const Seq& p)
{
  std::string s;
  for (auto& a : p)
    switch (a.k)
    {
      case Atom::LIT:
        s += a.text;
        break;
      case Atom::ANY1:
        if (c.coin())
          s += gen_lit(c).substr(0, 1);
        break;
      case Atom::ANY:
        for (int n = (int)c.draw(3); n-- > 0;)
          s += gen_lit(c);
        break;
      case Atom::INST:
        if (c.coin())
          s += ".1";
        break;
      case Atom::CLS:
      {
        auto it = a.cls.begin();
        std::advance(it, c.draw(a.cls.size()));
        s += *it;
        break;
      }
      case Atom::ALT:
        s += sample(c, a.alts[c.draw(a.alts.size())]);
    }
  return s;
}
static std::string near(vf::Case& c, std::string s)
{
  // one edit away
  switch (c.draw(4))
  {
    case 0:
      if (!s.empty())
        s.erase(c.draw(s.size()), 1);
      break;
    case 1:
      s.insert(c.draw(s.size() + 1), 1, c.pick({'a', '1', '.', '=', 'z', ':'}));
      break;
    case 2:
      if (!s.empty())
        s[c.draw(s.size())] = c.pick({'a', 'b', '1', '.', 'x', '-'});
      break;
    default:;
  }
  return s;
}
static std::string show(const std::vector<node_base*>& v)
{
  std::string s;
  for (auto n : v)
    s += address_string_from_node(*n) + "  ";
  return s;
}

// ------------------------------------------------------------------ finding
struct Step
{
  bool up{};
  Seq seq;
};
VF_PROP(finding, 40000, 400000)
{
  std::string devname = c.pick<std::string>({"dev", "dev.1", "my dev", "d=1"});
  generic_device dev{devname}, dev2{"other"};
  // the path
  std::vector<Step> steps;
  const int n = (int)c.range(1, 4);
  for (int i = 0; i < n; i++)
  {
    Step st;
    st.up = i > 0 && c.chance(1, 8);
    if (!st.up)
    {
      if (c.chance(1, 4))
        st.seq = {lit(c.pick<std::string>({"a", "b", "x.1", "k=v"}))};
      else
        st.seq = gen_seq(c, 2, true);
      if (text(st.seq) == "..")
        return;
    }
    steps.push_back(st);
  }
  // a tree that has nodes around it
  std::vector<node_base*> every{&dev.get_root_node()};
  const int m = (int)c.range(1, 6);
  for (int k = 0; k < m; k++)
  {
    node_base* at = every[c.chance(1, 4) ? c.draw(every.size()) : 0];
    for (auto& st : steps)
    {
      if (st.up)
      {
        if (at->get_parent())
          at = at->get_parent();
        continue;
      }
      std::string nm = sample(c, st.seq);
      if (c.chance(1, 3))
        nm = near(c, nm);
      sanitize_name(nm);
      if (nm.empty() || nm == "..")
        nm = "z";
      auto ch = at->find_child(nm);
      if (!ch)
      {
        ch = at->create_child(nm);
        every.push_back(ch);
      }
      at = ch;
      if (c.chance(1, 6))
        break;
    }
  }
  auto& o = create_node(dev2, "a/b");
  (void)o;
  std::string pat;
  for (std::size_t i = 0; i < steps.size(); i++)
    pat += (i ? "/" : "") + (steps[i].up ? ".." : text(steps[i].seq));
  // where from
  std::vector<node_base*> from;
  const int how = (int)c.draw(5);
  std::string full = pat;
  Seq devpat;
  switch (how)
  {
    case 0: // relative to the root
      break;
    case 1:
      full = "/" + pat;
      break;
    case 2:
      full = "//" + pat;
      break;
    case 3: // with a device
      devpat = c.coin() ? Seq{lit(devname)} : gen_seq(c, 1, true);
      full = text(devpat) + ":/" + pat;
      break;
    default: // anywhere with a device
      devpat = Seq{lit(devname)};
      full = text(devpat) + "://" + pat;
  }
  if (c.chance(1, 6) && pat.back() != '/')
    full += "/";
  if (how == 0 && (get_address_scope(full) == address_scope::global))
    return;
  if ((how == 3 || how == 4) && get_address_scope(full) != address_scope::global)
    return;
  from.push_back(c.chance(1, 4) && how != 3 && how != 4 ? every[c.draw(every.size())] : &dev.get_root_node());
  const bool two = from[0] == &dev.get_root_node() && c.coin();
  if (two)
    from.push_back(&dev2.get_root_node());
  VF_NOTE("pattern " << full << " from " << show(from) << " in " << show(every));

  // reference
  std::vector<node_base*> want = from;
  if (!devpat.empty())
  {
    std::vector<node_base*> w;
    for (auto x : want)
      if (matches(devpat, x->get_device().get_name()))
        w.push_back(x);
    want = w;
  }
  if (how == 2 || how == 4)
  {
    std::vector<node_base*> w;
    std::function<void(node_base*)> rec = [&](node_base* x) {
      w.push_back(x);
      for (auto k : x->children_copy())
        rec(k);
    };
    for (auto x : want)
      rec(x);
    want = w;
  }
  for (auto& st : steps)
  {
    std::vector<node_base*> w;
    for (auto x : want)
      if (st.up)
      {
        if (x->get_parent() && std::find(w.begin(), w.end(), x->get_parent()) == w.end())
          w.push_back(x->get_parent());
      }
      else
        for (auto k : x->children_copy())
          if (matches(st.seq, k->get_name()))
            w.push_back(k);
    want = w;
  }
  auto p = traversal::make_path(full);
  VF_CHECK(p, "the pattern " << full << " was refused");
  VF_CHECK(p->scope == get_address_scope(full) && p->pattern == full, "scope and text of the path");
  auto got = from;
  traversal::apply(*p, got);
  auto a = got, b = want;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  VF_CHECK(a == b, full << " gave " << show(got) << " instead of " << show(want));
  if (how != 2 && how != 4)
    VF_CHECK(got == want, full << " gave " << show(got) << " in another order than " << show(want));
  // the same path again (patterns are cached)
  auto p2 = traversal::make_path(full);
  auto again = from;
  traversal::apply(*p2, again);
  VF_CHECK(again == got && *p2 == *p, full << " differs the second time");
  // one node at a time
  for (auto x : every)
  {
    const bool in = std::find(want.begin(), want.end(), x) != want.end();
    if (from[0] == &dev.get_root_node())
      VF_CHECK(traversal::match(*p, *x) == in, "match(" << full << ", " << show({x}) << ")");
    if (!two)
      VF_CHECK(traversal::match(*p, *x, *from[0]) == in, "match(" << full << ", " << show({x}) << ")");
  }
  if (!two && how != 3 && how != 4)
  {
    bool up = false;
    for (auto& st : steps)
      up |= st.up;
    if (traversal::is_pattern(full) || !up)
    {
      auto f = find_nodes(*from[0], full);
      std::sort(f.begin(), f.end());
      VF_CHECK(f == b, "find_nodes(" << full << ") gave " << show(f) << " instead of " << show(want));
    }
  }
  c.nontrivial(!want.empty() && want.size() < every.size());
  c.label(how == 2 || how == 4, "from anywhere");
  c.label(!want.empty(), "found");
}

// ----------------------------------------------------------------- creating
VF_PROP(creating, 20000, 200000)
{
  generic_device dev{"dev"}, ref{"dev"};
  for (int k = 0; k < 3; k++)
  {
    if (k && c.coin())
      break;
    std::vector<Seq> parts;
    const int n = (int)c.range(1, 3);
    std::vector<std::string> want{""};
    std::string pat;
    for (int i = 0; i < n; i++)
    {
      parts.push_back(gen_seq(c, 2, false));
      if (how_many(parts.back()) * (double)want.size() > 100)
        parts.back() = gen_seq(c, 0, false);
      if (how_many(parts.back()) * (double)want.size() > 100)
        return;
      pat += (i ? "/" : "") + text(parts.back());
      std::vector<std::string> w;
      for (auto& x : want)
        for (auto& y : expansions(parts.back()))
        {
          if (y == "..")
            return;
          w.push_back(x + (i ? "/" : "") + y);
        }
      want = w;
    }
    if (c.coin())
      pat = "/" + pat;
    bool pattern = false;
    for (char x : pat)
      pattern |= x == '{' || x == '[';
    VF_CHECK(is_brace_expansion(pat) == pattern, "is_brace_expansion(" << pat << ")");
    VF_NOTE("create_nodes(" << pat << ")");
    auto got = create_nodes(dev, pat);
    VF_CHECK(got.size() == want.size(), "create_nodes(" << pat << ") gave " << show(got));
    for (std::size_t i = 0; i < want.size(); i++)
    {
      auto& r = create_node(ref, want[i]);
      VF_CHECK(
          osc_parameter_string(*got[i]) == osc_parameter_string(r),
          "create_nodes(" << pat << ") gave " << osc_parameter_string(*got[i]) << " instead of "
                          << osc_parameter_string(r));
    }
    c.nontrivial(want.size() > 1);
    // what was created at first is what the pattern finds
    std::vector<std::string> u = want;
    std::sort(u.begin(), u.end());
    if (k == 0 && std::unique(u.begin(), u.end()) == u.end())
    {
      auto f = find_nodes(dev, pat);
      std::sort(f.begin(), f.end());
      std::sort(got.begin(), got.end());
      VF_CHECK(f == got, "find_nodes(" << pat << ") gave " << show(f) << " after creating " << show(got));
      c.label("found again");
    }
  }
}

VF_PROP(ranges, 40000, 400000)
{
  std::string in, out;
  const int n = (int)c.range(1, 4);
  for (int i = 0; i < n; i++)
  {
    Seq s{gen_atom(c, 1, true)};
    if (s[0].k == Atom::ALT && s[0].text.find("..") != std::string::npos && s[0].text.find_first_of("{", 1) == std::string::npos
        && s[0].text.find_first_of(",|") == std::string::npos)
    {
      auto e = expansions(s);
      in += s[0].text;
      if (e.size() == 1)
        out += e[0];
      else
      {
        out += "{";
        for (std::size_t k = 0; k < e.size(); k++)
          out += (k ? "," : "") + e[k];
        out += "}";
      }
      c.nontrivial();
    }
    else if (s[0].k != Atom::ALT)
    {
      in += s[0].text;
      out += s[0].text;
    }
  }
  auto r = in;
  expand_ranges(r);
  VF_CHECK(r == out, "expand_ranges(" << in << ") = " << r << " instead of " << out);
}

// -------------------------------------------------------- parameters by name
VF_PROP(parameters, 30000, 300000)
{
  generic_device dev{"dev"};
  auto& root = dev.get_root_node();
  // names without instances, so that new instances do not meet them
  const std::string parent = c.pick<std::string>({"", "p/", "p/q/"});
  std::vector<std::string> nm;
  for (const char* x : {"xa", "xb", "xc", "xd"})
    if (c.coin())
      nm.push_back(x);
  if (nm.empty())
    nm.push_back("xa");
  std::string pat = c.coin() ? "/" : "";
  const bool cls = c.coin();
  if (nm.size() == 1)
    pat += parent + nm[0];
  else
  {
    pat += parent + (cls ? "x[" : "{");
    for (std::size_t i = 0; i < nm.size(); i++)
      pat += cls ? nm[i].substr(1) : (i ? "," : "") + nm[i];
    pat += cls ? "]" : "}";
  }
  std::vector<std::string> want;
  std::map<std::string, node_base*> existing;
  for (const char* x : {"xa", "xb", "xc", "xd"})
  {
    const int st = (int)c.draw(3);
    if (!st)
      continue;
    auto& k = find_or_create_node(root, parent + x);
    existing[x] = &k;
    if (st == 2)
      k.create_parameter(val_type::STRING);
  }
  for (auto& x : nm)
  {
    if (!existing.count(x) || !existing[x]->get_parameter())
      want.push_back("/" + parent + x);
    else
      want.push_back("/" + parent + x + ".1");
  }
  VF_NOTE("find_or_create_parameter(" << pat << ")");
  std::size_t before = 0;
  std::map<std::string, parameter_base*> kept;
  for (auto& e : existing)
    if (auto p = e.second->get_parameter())
      kept[e.first] = p, before++;
  auto got = find_or_create_parameter(root, pat, "float");
  std::vector<std::string> names;
  for (auto p : got)
  {
    names.push_back(osc_parameter_string(*p));
    VF_CHECK(p->get_value_type() == val_type::FLOAT, "type of a created parameter");
  }
  std::sort(names.begin(), names.end());
  std::sort(want.begin(), want.end());
  std::string a, b;
  for (auto& x : names)
    a += x + " ";
  for (auto& x : want)
    b += x + " ";
  VF_CHECK(a == b, "find_or_create_parameter(" << pat << ") gave " << a << "instead of " << b);
  for (auto& e : kept)
    VF_CHECK(
        existing[e.first]->get_parameter() == e.second && e.second->get_value_type() == val_type::STRING,
        "the existing parameter of " << e.first << " changed");
  // nothing else appeared
  std::size_t nodes = list_all_children(&root).size(), expected = existing.size();
  for (auto& x : want)
  {
    auto base = x.substr(x.rfind('/') + 1);
    if (!existing.count(base))
      expected++;
  }
  if (!parent.empty())
    expected += std::count(parent.begin(), parent.end(), '/');
  VF_CHECK(nodes == expected, nodes << " nodes after find_or_create_parameter(" << pat << "), expected " << expected);
  c.nontrivial(nm.size() > 1);
}

// ------------------------------------------------------------------ listing
VF_PROP(listing, 20000, 200000)
{
  generic_device dev{"dev"};
  std::vector<node_base*> every{&dev.get_root_node()};
  const int n = (int)(c.coin() ? c.range(0, 12) : c.range(10, 45));
  const int parents = (int)c.range(1, 4);
  std::map<node_base*, std::pair<bool, float>> prio;
  for (int i = 0; i < n; i++)
  {
    auto p = every[c.draw(std::min<std::size_t>(every.size(), parents))];
    std::string nm = c.pick<std::string>({"foo", "Fab", "a", "B", "a-b", "a-c", "foo.bar"});
    if (c.coin())
      nm += "." + std::to_string(c.range(0, 25));
    if (c.chance(1, 10))
      nm += ".L";
    auto k = p->create_child(nm);
    every.push_back(k);
    if (c.chance(1, 3))
    {
      const float f = (float)c.range(-2, 2);
      set_priority(*k, f);
      prio[k] = {true, f};
    }
  }
  auto key = [&](node_base* k) {
    std::string s = k->get_name();
    for (auto& ch : s)
      ch = (char)std::tolower(ch);
    std::string pre = s;
    long long num = -1;
    for (std::size_t i = 0; i + 1 < s.size(); i++)
      if (s[i] == '.' && std::isdigit((unsigned char)s[i + 1]))
      {
        pre = s.substr(0, i);
        num = std::stoll(s.substr(i + 1));
        break;
      }
    auto it = prio.find(k);
    // highest priority first, nodes without one last
    return std::make_tuple(
        it == prio.end(), it == prio.end() ? 0.f : -it->second.second, pre, num, s);
  };
  std::vector<node_base*> want;
  std::function<void(node_base*, unsigned)> rec = [&](node_base* k, unsigned depth) {
    auto ch = k->children_copy();
    std::stable_sort(ch.begin(), ch.end(), [&](auto x, auto y) { return key(x) < key(y); });
    for (auto x : ch)
    {
      want.push_back(x);
      if (depth != 1)
        rec(x, depth ? depth - 1 : 0);
    }
  };
  const unsigned depth = (unsigned)c.draw(4);
  auto top = every[c.chance(1, 4) ? c.draw(every.size()) : 0];
  rec(top, depth);
  auto got = list_all_children(top, depth);
  // names that only differ by case are equal
  VF_CHECK(got.size() == want.size(), "listed " << got.size() << " nodes of " << want.size());
  for (std::size_t i = 0; i < got.size(); i++)
    VF_CHECK(
        got[i]->get_parent() == want[i]->get_parent() && key(got[i]) == key(want[i]),
        "listed " << show(got) << " instead of " << show(want));
  auto a = got, b = want;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  VF_CHECK(a == b, "listed " << show(got) << " instead of " << show(want));
  c.nontrivial(got.size() > 3);
  c.label(n > 20, "more than twenty nodes");
}

// ----------------------------------------------- regular expressions of paths
VF_PROP(path_expressions, 8000, 80000)
{
  using namespace ossia::regex_path;
  static const char* const nm[] = {"a", "b", "foo", "k=v", "x y"};
  const std::string d = c.pick<std::string>({"dev", "other"});
  struct El
  {
    int k;
    std::vector<std::string> names;
  };
  std::vector<El> els;
  path_element p = device(d);
  const int n = (int)c.range(1, 4);
  for (int i = 0; i < n; i++)
  {
    El e;
    e.k = (int)c.draw(5);
    e.names = {c.pick(nm)};
    switch (e.k)
    {
      case 0:
        p = p / path_element(e.names[0]);
        break;
      case 1:
        p = p / any_instance(e.names[0]);
        break;
      case 2:
        e.names.push_back(c.pick(nm));
        p = p / any_between{e.names[0], e.names[1]};
        break;
      case 3:
        p = p / any_node();
        break;
      default:
        p = p / any_path();
    }
    els.push_back(e);
  }
  p = p / stop{};
  // a candidate
  std::vector<std::string> parts;
  for (auto& e : els)
  {
    const int reps = e.k == 4 ? (int)c.range(1, 3) : 1;
    for (int r = 0; r < reps; r++)
    {
      std::string s = e.k >= 3 ? std::string(c.pick(nm)) : e.names[c.draw(e.names.size())];
      if (e.k == 1 && c.coin())
        s += c.coin() ? ".12" : ".x";
      parts.push_back(s);
    }
  }
  switch (c.draw(4))
  {
    case 0:
      parts[c.draw(parts.size())] = c.pick(nm);
      break;
    case 1:
      parts.push_back(c.pick(nm));
      break;
    case 2:
      parts[c.draw(parts.size())] += ".3.4";
      break;
    default:;
  }
  const std::string dn = c.chance(1, 6) ? "zzz" : d;
  std::string addr = dn + ":";
  for (auto& s : parts)
    addr += "/" + s;
  std::function<bool(std::size_t, std::size_t)> ref = [&](std::size_t e, std::size_t k) -> bool {
    if (e == els.size())
      return k == parts.size();
    if (k == parts.size())
      return false;
    auto& s = parts[k];
    switch (els[e].k)
    {
      case 0:
        return s == els[e].names[0] && ref(e + 1, k + 1);
      case 1:
      {
        auto& b = els[e].names[0];
        bool ok = s == b;
        if (s.size() > b.size() + 1 && s.compare(0, b.size() + 1, b + ".") == 0)
          ok |= s.find('.', b.size() + 1) == std::string::npos;
        return ok && ref(e + 1, k + 1);
      }
      case 2:
        return (s == els[e].names[0] || s == els[e].names[1]) && ref(e + 1, k + 1);
      case 3:
        return ref(e + 1, k + 1);
      default:
        return ref(e + 1, k + 1) || ref(e, k + 1);
    }
  };
  const bool want = dn == d && ref(0, 0);
  const bool got = std::regex_match(addr, std::regex(p.address));
  VF_CHECK(got == want, addr << (got ? " matches " : " does not match ") << p.address);
  c.nontrivial(want);
}
