// C09: the tree of a device: names, addresses, lookup, notifications, whatever the history.
#include "vf.hpp"

#include <ossia/network/base/name_validation.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>

#include <map>
#include <memory>
#include <thread>

using namespace ossia;
using namespace ossia::net;
const char* const vf::rule
    = "histories of creations, renamings, removals of nodes and parameters and of lookups on a device; "
      "names with taken, instanced, invalid spellings; non-trivial: at least two nodes existed at once";

// ---------------------------------------------------------------- the model
struct N
{
  std::string name;
  N* parent{};
  std::vector<std::unique_ptr<N>> kids;
  bool param{};
  node_base* real{};
};

static bool valid_char(char c)
{
  return std::isalnum((unsigned char)c) || std::strchr(".~_()-: =", c);
}
static std::string clean(std::string s)
{
  for (auto& c : s)
    if (c == 0 || (unsigned char)c >= 128 || !valid_char(c))
      c = '_';
  return s;
}
// foo.12 -> foo, 12
static bool split_instance(const std::string& s, std::string& root, long& num)
{
  auto p = s.rfind('.');
  if (p == std::string::npos || p + 1 == s.size() || s.size() - p > 9)
    return false;
  for (std::size_t i = p + 1; i < s.size(); i++)
    if (!std::isdigit((unsigned char)s[i]))
      return false;
  root = s.substr(0, p);
  num = std::stol(s.substr(p + 1));
  return true;
}
static std::string available(std::string name, const std::vector<std::string>& taken)
{
  name = clean(name);
  if (std::find(taken.begin(), taken.end(), name) == taken.end())
    return name;
  std::string root = name, r;
  long k, max = 0;
  if (split_instance(name, r, k))
    root = r;
  for (auto& t : taken)
    if (t.size() > root.size() && t.compare(0, root.size(), root) == 0 && t[root.size()] == '.')
    {
      bool num = t.size() > root.size() + 1;
      for (std::size_t i = root.size() + 1; i < t.size(); i++)
        num &= !!std::isdigit((unsigned char)t[i]);
      if (num)
        max = std::max(max, std::stol(t.substr(root.size() + 1)));
    }
  return root + "." + std::to_string(max + 1);
}
static std::vector<std::string> names(const N& n, const N* except = nullptr)
{
  std::vector<std::string> r;
  for (auto& k : n.kids)
    if (k.get() != except)
      r.push_back(k->name);
  return r;
}
static N* child(N& n, const std::string& name)
{
  for (auto& k : n.kids)
    if (k->name == name)
      return k.get();
  return nullptr;
}
static std::string path(const N& n)
{
  if (!n.parent)
    return "";
  return path(*n.parent) + "/" + n.name;
}
static void all(N& n, std::vector<N*>& v)
{
  v.push_back(&n);
  for (auto& k : n.kids)
    all(*k, v);
}

// --------------------------------------------------------------- the events
struct Listener
{
  std::vector<std::string> ev;
  std::map<const node_base*, std::string> dead;
  void created(node_base& n) { ev.push_back("created " + osc_parameter_string(n)); }
  void removing(node_base& n)
  {
    ev.push_back("removing " + n.get_name() + (n.children().size() ? " (with children)" : ""));
  }
  void renamed(node_base& n, std::string old)
  {
    ev.push_back("renamed " + old + " to " + n.get_name());
  }
  void pcreated(const parameter_base& p) { ev.push_back("parameter of " + p.get_node().get_name()); }
  void premoving(const parameter_base& p)
  {
    ev.push_back("no parameter of " + p.get_node().get_name());
  }
  void deleted(const node_base& n) { ev.push_back("deleted " + n.get_name()); }
};
static std::string join(const std::vector<std::string>& v)
{
  std::string s;
  for (auto& e : v)
    s += e + "; ";
  return s;
}

static std::string gen_name(vf::Case& c)
{
  static const char* const base[]
      = {"a", "b", "foo", "ba", "a.b", "foo.bar", "x y", "n-1", "t~(", "k=v", "a:b", "a_", "A"};
  std::string s = base[c.weighted({8, 6, 6, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1})];
  switch (c.weighted({8, 3, 1, 1}))
  {
    case 1:
      s += "." + std::to_string(c.range(0, 4));
      break;
    case 2:
      s += c.pick<std::string>({".10", ".9", ".99", ".007", ".00", ".1.2", ".3.b"});
      break;
    case 3:
      // characters that are not allowed
      s.insert(c.size(0, s.size()), c.pick<std::string>({"#", "*", "{", "é", ",", "\n", "[0]", "\"", "+", "!", "?"}));
      break;
  }
  return s;
}

struct World
{
  vf::Case& c;
  Listener l; // outlives the device
  generic_device dev;
  N root;
  std::vector<std::string> expect;

  explicit World(vf::Case& cs) : c{cs}, dev{"dev"}
  {
    root.name = "dev";
    root.real = &dev.get_root_node();
    dev.on_node_created.connect<&Listener::created>(l);
    dev.on_node_removing.connect<&Listener::removing>(l);
    dev.on_node_renamed.connect<&Listener::renamed>(l);
    dev.on_parameter_created.connect<&Listener::pcreated>(l);
    dev.on_parameter_removing.connect<&Listener::premoving>(l);
  }
  N* pick()
  {
    std::vector<N*> v;
    all(root, v);
    return v[c.draw(v.size())];
  }
  N* adopt(N& p, node_base* real, std::string name)
  {
    auto n = std::make_unique<N>();
    n->name = std::move(name);
    n->parent = &p;
    n->real = real;
    real->about_to_be_deleted.connect<&Listener::deleted>(l);
    p.kids.push_back(std::move(n));
    expect.push_back("created " + path(*p.kids.back()));
    return p.kids.back().get();
  }
  void expect_death(N& n, bool top)
  {
    for (auto& k : n.kids)
      expect_death(*k, false);
    if (!top && n.param)
      expect.push_back("no parameter of " + n.name);
    expect.push_back("removing " + n.name);
    expect.push_back("deleted " + n.name);
    if (top && n.param)
      expect.push_back("no parameter of " + n.name);
  }
  void compare(N& n)
  {
    auto* r = n.real;
    VF_CHECK(r->get_name() == n.name, "name " << r->get_name() << " expected " << n.name);
    VF_CHECK((r->get_parameter() != nullptr) == n.param, "parameter of " << path(n));
    if (n.param)
      VF_CHECK(&r->get_parameter()->get_node() == r, "node of the parameter of " << path(n));
    VF_CHECK(r->get_parent() == (n.parent ? n.parent->real : nullptr), "parent of " << path(n));
    VF_CHECK(&r->get_device() == &dev, "device of " << path(n));
    const std::string p = n.parent ? path(n) : "/";
    VF_CHECK(osc_parameter_string(*r) == p, "OSC address " << osc_parameter_string(*r) << " expected " << p);
    VF_CHECK(
        r->osc_address() == p || !n.parent, "cached OSC address " << r->osc_address() << " expected " << p);
    VF_CHECK(
        address_string_from_node(*r) == root.name + ":" + p,
        "address " << address_string_from_node(*r) << " expected " << root.name << ":" << p);
    VF_CHECK(
        osc_parameter_string_with_device(*r) == (n.parent ? "/" + root.name + p : "/"),
        "address with device " << osc_parameter_string_with_device(*r) << " expected /" << root.name << p);
    if (n.param)
    {
      auto& pa = *r->get_parameter();
      VF_CHECK(
          osc_parameter_string(pa) == p && address_string_from_node(pa) == root.name + ":" + p
              && (osc_address(pa) == p || !n.parent),
          "addresses of the parameter of " << p);
    }
    VF_CHECK(find_node(dev, p) == r, p << " does not lead to its node");
    auto ch = r->children_names();
    VF_CHECK(ch == names(n), "children of " << p << ": " << join(ch) << " expected " << join(names(n)));
    auto cc = r->children_copy();
    std::set<std::string> uniq(ch.begin(), ch.end());
    VF_CHECK(uniq.size() == ch.size(), "two children of " << p << " have the same name: " << join(ch));
    for (std::size_t i = 0; i < n.kids.size(); i++)
    {
      VF_CHECK(cc[i] == n.kids[i]->real, "child " << i << " of " << p << " moved");
      compare(*n.kids[i]);
    }
  }
  void check()
  {
    VF_CHECK(
        l.ev == expect, "notified of: " << join(l.ev) << "expected: " << join(expect));
    l.ev.clear();
    expect.clear();
    compare(root);
  }
};

VF_PROP(histories, 20000, 300000)
{
  World w{c};
  std::size_t most = 0;
  for (int i = 0; c.more(i, 60, 14); i++)
  {
    N& n = *w.pick();
    switch (c.weighted({8, 5, 3, 4, 3, 1, 3, 3, 2, 2, 2, 2, 2, 2, 1}))
    {
      case 0:
      {
        auto nm = gen_name(c);
        const auto want = available(nm, names(n));
        VF_NOTE("create_child(" << path(n) << ", " << nm << ") -> " << want);
        auto r = n.real->create_child(nm);
        VF_CHECK(r, "create_child failed");
        VF_CHECK(r->get_name() == want, "create_child(" << nm << ") gave " << r->get_name() << " instead of " << want);
        w.adopt(n, r, want);
        break;
      }
      case 1:
      case 2:
      {
        // a path from n: existing parts are reused
        const bool foc = c.coin();
        std::string addr = c.coin() ? "/" : "";
        N* at = &n;
        std::vector<std::pair<N*, std::string>> todo;
        const std::size_t len = c.size(1, 3);
        bool fresh = false;
        std::string shown;
        std::vector<std::string> parts;
        for (std::size_t k = 0; k < len; k++)
        {
          // names in paths are looked up as they are
          std::string p = clean(gen_name(c));
          if (at && !at->kids.empty() && c.coin())
            p = at->kids[c.draw(at->kids.size())]->name;
          parts.push_back(p);
          addr += (k ? "/" : "") + p;
          at = at ? child(*at, p) : nullptr;
        }
        if (c.chance(1, 4))
          addr += "/";
        VF_NOTE((foc ? "find_or_create_node(" : "create_node(") << path(n) << ", " << addr << ")");
        const auto before = w.l.ev.size();
        node_base& r = foc ? find_or_create_node(*n.real, addr) : create_node(*n.real, addr);
        (void)before;
        at = &n;
        for (std::size_t k = 0; k < len; k++)
        {
          N* nx = child(*at, parts[k]);
          if (nx && (foc || k + 1 < len))
          {
            at = nx;
            continue;
          }
          const auto want = available(parts[k], names(*at));
          auto* real = at->real->find_child(want);
          VF_CHECK(real, "no node " << want << " was created");
          at = w.adopt(*at, real, want);
          fresh = true;
        }
        VF_CHECK(&r == at->real, "the node returned for " << addr << " is " << osc_parameter_string(r) << " instead of " << path(*at));
        (void)fresh;
        break;
      }
      case 3:
      {
        auto nm = gen_name(c);
        VF_NOTE("set_name(" << path(n) << ", " << nm << ")");
        const auto old = n.name;
        const auto want = n.parent ? available(nm, names(*n.parent, &n)) : clean(nm);
        n.real->set_name(nm);
        n.name = want;
        w.expect.push_back("renamed " + old + " to " + want);
        break;
      }
      case 4:
      case 5:
      {
        if (n.kids.empty())
          break;
        N& k = *n.kids[c.draw(n.kids.size())];
        VF_NOTE("remove_child(" << path(k) << ")");
        w.expect_death(k, true);
        const bool byname = c.coin();
        VF_CHECK(byname ? n.real->remove_child(std::string(k.name)) : n.real->remove_child(*k.real), "remove_child(" << path(k) << ") failed");
        for (std::size_t q = 0; q < n.kids.size(); q++)
          if (n.kids[q].get() == &k)
          {
            n.kids.erase(n.kids.begin() + q);
            break;
          }
        break;
      }
      case 6:
        VF_NOTE("create_parameter(" << path(n) << ")");
        if (c.coin() || n.param)
        {
          auto t = c.pick({val_type::FLOAT, val_type::INT, val_type::STRING, val_type::VEC3F});
          auto old = n.real->get_parameter();
          auto p = n.real->create_parameter(t);
          VF_CHECK(p && p == n.real->get_parameter() && p->get_value_type() == t, "create_parameter");
          if (n.param)
            VF_CHECK(p == old, "create_parameter replaced the parameter");
          else
            w.expect.push_back("parameter of " + n.name);
        }
        else
        {
          n.real->set_parameter(std::make_unique<generic_parameter>(*n.real));
          w.expect.push_back("parameter of " + n.name);
        }
        n.param = true;
        break;
      case 7:
        VF_NOTE("remove_parameter(" << path(n) << ")");
        VF_CHECK(n.real->remove_parameter() == n.param, "remove_parameter");
        if (n.param)
          w.expect.push_back("no parameter of " + n.name);
        n.param = false;
        break;
      case 8:
        VF_NOTE("set_parameter(" << path(n) << ")");
        if (n.param)
          w.expect.push_back("no parameter of " + n.name);
        if (c.chance(3, 4))
        {
          auto p = std::make_unique<generic_parameter>(*n.real);
          auto q = p.get();
          n.real->set_parameter(std::move(p));
          VF_CHECK(n.real->get_parameter() == q, "set_parameter");
          w.expect.push_back("parameter of " + n.name);
          n.param = true;
        }
        else
        {
          n.real->set_parameter(nullptr);
          n.param = false;
        }
        break;
      case 9:
      {
        // a node made elsewhere
        auto nm = gen_name(c);
        auto k = std::make_unique<generic_node>(nm, w.dev, *n.real);
        const bool ok = clean(nm) == nm && !child(n, nm);
        VF_NOTE("add_child(" << path(n) << ", " << nm << ")");
        auto q = k.get();
        auto r = n.real->add_child(std::move(k));
        VF_CHECK((r != nullptr) == ok, "add_child(" << nm << ") " << (r ? "accepted" : "refused"));
        if (r)
        {
          VF_CHECK(r == q, "add_child returned another node");
          w.adopt(n, r, nm);
        }
        break;
      }
      case 10:
      {
        // lookups of what is not there
        auto nm = gen_name(c);
        N* k = child(n, nm);
        VF_CHECK(n.real->find_child(nm) == (k ? k->real : nullptr), "find_child(" << nm << ")");
        std::string addr = path(n) + "/" + nm;
        VF_CHECK(find_node(w.dev, addr) == (k ? k->real : nullptr), "find_node(" << addr << ")");
        VF_CHECK(find_node(w.dev, addr + "/") == (k ? k->real : nullptr), "find_node(" << addr << "/)");
        if (!k)
        {
          // removal by name cleans the name first
          if (!child(n, clean(nm)))
            VF_CHECK(!n.real->remove_child(nm), "remove_child(" << nm << ")");
          VF_CHECK(!find_node(w.dev, addr + "/x"), "find_node");
          VF_CHECK(!find_or_create_node(w.dev, addr, true), "find_or_create_node(reading)");
        }
        break;
      }
      case 11:
      {
        N& o = *w.pick();
        const bool is = o.parent == &n;
        VF_CHECK(n.real->has_child(*o.real) == is, "has_child(" << path(n) << ", " << path(o) << ")");
        if (!is)
          VF_CHECK(!n.real->remove_child(*o.real), "removed " << path(o) << " from " << path(n));
        for (auto& k : n.kids)
        {
          bool inst = false;
          for (auto& m : n.kids)
            inst |= m->name.size() > k->name.size() + 1 && m->name.compare(0, k->name.size() + 1, k->name + ".") == 0;
          VF_CHECK(n.real->is_root_instance(*k->real) == inst, "is_root_instance(" << path(*k) << ")");
        }
        break;
      }
      case 12:
      {
        // relative addresses
        N& o = *w.pick();
        std::string p;
        N* q = &o;
        while (q && q != &n)
        {
          p = p.empty() ? q->name : q->name + "/" + p;
          q = q->parent;
        }
        auto r = relative_address_string_from_nodes(*o.real, *n.real);
        if (q == &n && &o != &n)
        {
          VF_CHECK(r == p, "address of " << path(o) << " relative to " << path(n) << ": " << r);
          VF_CHECK(find_node(*n.real, r) == o.real, r << " does not lead to its node from " << path(n));
          c.label("relative address");
        }
        break;
      }
      case 13:
        // the device
        if (c.chance(1, 3))
        {
          auto nm = gen_name(c);
          const auto old = w.root.name;
          w.dev.set_name(nm);
          w.root.name = clean(nm);
          w.expect.push_back("renamed " + old + " to " + w.root.name);
          VF_CHECK(w.dev.get_name() == w.root.name, "name of the device");
        }
        break;
      default:
        VF_NOTE("clear_children(" << path(n) << ")");
        for (auto& k : n.kids)
          w.expect_death(*k, false);
        n.real->clear_children();
        n.kids.clear();
    }
    w.check();
    std::vector<N*> v;
    all(w.root, v);
    most = std::max(most, v.size());
  }
  c.nontrivial(most > 2);
  c.label(most > 8, "more than eight nodes");
}

// every node tells that it goes away, once, when the device does
VF_PROP(teardown, 8000, 80000)
{
  Listener l;
  std::multiset<std::string> want, params;
  {
    generic_device dev{"d"};
    dev.on_parameter_removing.connect<&Listener::premoving>(l);
    dev.get_root_node().about_to_be_deleted.connect<&Listener::deleted>(l);
    want.insert("deleted d");
    std::vector<node_base*> v{&dev.get_root_node()};
    const int n = (int)c.range(0, 20);
    for (int i = 0; i < n; i++)
    {
      auto k = v[c.draw(v.size())]->create_child("n" + std::to_string(i));
      k->about_to_be_deleted.connect<&Listener::deleted>(l);
      want.insert("deleted n" + std::to_string(i));
      if (c.coin())
      {
        k->create_parameter(val_type::FLOAT);
        want.insert("no parameter of n" + std::to_string(i));
      }
      v.push_back(k);
    }
    c.nontrivial(n > 1);
  }
  std::multiset<std::string> got(l.ev.begin(), l.ev.end());
  VF_CHECK(got == want, "notified of " << join(l.ev));
}

// a device whose tree is fixed
struct fixed_device : generic_device
{
  fixed_device() : generic_device{"fixed"} { }
  void freeze() { m_capabilities.change_tree = false; }
};
VF_PROP(fixed_trees, 4000, 40000)
{
  fixed_device dev;
  std::vector<node_base*> v{&dev.get_root_node()};
  for (int i = (int)c.range(1, 6); i-- > 0;)
    v.push_back(v[c.draw(v.size())]->create_child(gen_name(c)));
  dev.freeze();
  std::vector<std::vector<std::string>> before;
  for (auto n : v)
    before.push_back(n->children_names());
  c.nontrivial(v.size() > 3);
  for (int i = (int)c.range(1, 6); i-- > 0;)
  {
    auto n = v[c.draw(v.size())];
    switch (c.draw(5))
    {
      case 0:
        VF_CHECK(!n->create_child(gen_name(c)), "create_child on a fixed tree");
        break;
      case 1:
        VF_CHECK(!n->remove_child(gen_name(c)), "remove_child on a fixed tree");
        if (!n->children_names().empty())
          VF_CHECK(!n->remove_child(n->children_names()[0]), "remove_child on a fixed tree");
        break;
      case 2:
        VF_CHECK(!n->remove_child(*v[c.draw(v.size())]), "remove_child on a fixed tree");
        break;
      case 3:
        n->clear_children();
        break;
      default:
        VF_CHECK(!n->add_child(std::make_unique<generic_node>("zz", dev, *n)), "add_child on a fixed tree");
    }
  }
  for (std::size_t i = 0; i < v.size(); i++)
    VF_CHECK(v[i]->children_names() == before[i], "a fixed tree changed");
}

// names
VF_PROP(names_and_addresses, 60000, 600000)
{
  std::string s;
  const std::size_t n = c.size(0, 12);
  for (std::size_t i = 0; i < n; i++)
    s.push_back((char)(c.coin() ? c.range(32, 126) : c.range(1, 255)));
  c.nontrivial(n > 1);
  auto cl = clean(s);
  VF_CHECK(sanitize_name(s) == cl, "sanitize_name(" << s << ") = " << sanitize_name(s));
  VF_CHECK(sanitize_name(s.c_str()) == cl && sanitize_name(std::string(s)) == cl, "sanitize_name variants");
  VF_CHECK(sanitize_name(cl) == cl, "sanitize_name is not idempotent on " << cl);
  std::string d = s;
  sanitize_device_name(d);
  VF_CHECK(d.size() == s.size(), "sanitize_device_name changed the size");
  for (std::size_t i = 0; i < n; i++)
  {
    const bool ok = valid_char(s[i]) && (unsigned char)s[i] < 128 && s[i] != ':';
    VF_CHECK(d[i] == (ok ? s[i] : '_'), "sanitize_device_name(" << s << ") = " << d);
    VF_CHECK(
        is_valid_character_for_name(s[i]) == (valid_char(s[i]) && (unsigned char)s[i] < 128)
            && is_valid_character_for_device(s[i]) == ok,
        "character " << (int)s[i]);
  }
  // a name free among its brothers
  std::vector<std::string> br;
  for (std::size_t k = c.size(0, 8); k-- > 0;)
    br.push_back(clean(gen_name(c)));
  auto nm = gen_name(c);
  auto got = sanitize_name(nm, br);
  VF_CHECK(got == available(nm, br), "name for " << nm << " among " << join(br) << ": " << got << " instead of " << available(nm, br));
  VF_CHECK(std::find(br.begin(), br.end(), got) == br.end(), "the name " << got << " is taken");
  // splitting an address
  std::vector<std::string> parts;
  for (std::size_t k = c.size(1, 5); k-- > 0;)
    parts.push_back(clean(gen_name(c)));
  std::string addr;
  for (auto& p : parts)
    addr += (addr.empty() ? "" : "/") + p;
  const bool lead = c.coin(), trail = c.coin();
  auto sp = address_parts((lead ? "/" : "") + addr + (trail ? "/" : ""));
  VF_CHECK(sp == parts, "address_parts(" << addr << ") = " << join(sp));
  VF_CHECK(get_address_scope("/" + addr) == address_scope::absolute, "scope of /" << addr);
  VF_CHECK(get_address_scope("//" + addr) == address_scope::relative, "scope of //" << addr);
  VF_CHECK(get_address_scope("device:/" + addr) == address_scope::global, "scope of device:/" << addr);
  if (parts[0].back() != ':')
    VF_CHECK(get_address_scope(addr) == address_scope::relative, "scope of " << addr);
}

// ------------------------------------------------------------------ threads
VF_PROP_SCHED(threads, 1500, 15000, 50)
{
  generic_device dev{"d"};
  auto& node = *dev.create_child("top");
  const int T = (int)c.range(2, 4), K = (int)c.range(4, 30);
  std::vector<uint64_t> seeds;
  for (int t = 0; t < T; t++)
    seeds.push_back(c.draw(1 << 30));
  c.nontrivial();
  std::vector<std::string> errs(T);
  std::vector<int> alive(T);
  std::vector<std::thread> th;
  for (int t = 0; t < T; t++)
    th.emplace_back([&, t] {
      uint64_t s = seeds[t];
      std::vector<node_base*> mine;
      for (int i = 0; i < K; i++)
      {
        s = vf::mix64(s + i);
        switch (s % 6)
        {
          case 0:
          case 1:
            mine.push_back(node.create_child("n"));
            break;
          case 2:
          {
            auto k = std::make_unique<generic_node>("n." + std::to_string(s / 8 % 64), dev, node);
            if (auto r = node.add_child(std::move(k)))
              mine.push_back(r);
            break;
          }
          case 3:
            if (!mine.empty())
            {
              auto m = mine.back();
              mine.pop_back();
              const bool ok = s & 64 ? node.remove_child(*m) : node.remove_child(std::string(m->get_name()));
              if (!ok)
                errs[t] = "a node could not be removed";
            }
            break;
          case 4:
            if (!mine.empty())
            {
              if (!node.has_child(*mine.back()))
                errs[t] = "a child is missing";
              if (node.find_child(mine.back()->get_name()) != mine.back())
                errs[t] = "a name leads to another node";
            }
            break;
          default:
          {
            auto v = node.children_names();
            std::set<std::string> u(v.begin(), v.end());
            if (u.size() != v.size())
              errs[t] = "two children have the same name";
          }
        }
      }
      alive[t] = (int)mine.size();
    });
  for (auto& x : th)
    x.join();
  for (auto& e : errs)
    VF_CHECK(e.empty(), e);
  auto v = node.children_names();
  std::set<std::string> u(v.begin(), v.end());
  VF_CHECK(u.size() == v.size(), "two children have the same name: " << join(v));
  int n = 0;
  for (auto a : alive)
    n += a;
  VF_CHECK((int)v.size() == n, v.size() << " children, expected " << n);
}
