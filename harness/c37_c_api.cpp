// C37: the C API against the C++ library: the same histories on two devices, one driven through ossia-c.h.
#include "gen_value.hpp"

#include <ossia-c/ossia/ossia_utils.hpp>
#include <ossia/network/base/message_queue.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/value/value_conversion.hpp>

using namespace ossia::net;
using gv::MV;
const char* const vf::rule
    = "values, domains and histories of nodes, parameters, attributes and callbacks, driven through the C API on one "
      "device and through the C++ library on its twin; non-trivial: a value that is a list or text, a domain with "
      "bounds or values, or a history with at least four operations that change the tree";

#define NOTE(A, B) VF_NOTE((A) << ": " << (B))
extern "C" void ossia_log_error(const char*) { }

static bool same(const ossia::value& a, const MV& m) { return gv::matches(a, m); }
static bool same(const ossia::value& a, const ossia::value& b) { return gv::matches(a, gv::from_value(b)); }

// ---------------------------------------------------------------- values
static ossia_value_t make(vf::Case& c, const MV& m)
{
  switch (m.t)
  {
    case MV::FLOAT:
      return ossia_value_create_float(m.f);
    case MV::INT:
      return ossia_value_create_int(m.i);
    case MV::VEC2:
      return ossia_value_create_2f(m.v[0], m.v[1]);
    case MV::VEC3:
      return ossia_value_create_3f(m.v[0], m.v[1], m.v[2]);
    case MV::VEC4:
      return ossia_value_create_4f(m.v[0], m.v[1], m.v[2], m.v[3]);
    case MV::IMPULSE:
      return ossia_value_create_impulse();
    case MV::BOOL:
      return ossia_value_create_bool(m.i ? (c.coin() ? 1 : (int)c.range(2, 1024)) : 0);
    case MV::CHAR:
      return ossia_value_create_char((char)m.i);
    case MV::STRING:
      if (m.s.find('\0') == std::string::npos && c.coin())
        return ossia_value_create_string(m.s.c_str());
    {
      std::vector<char> b(m.s.begin(), m.s.end()); // not terminated
      b.reserve(1);
      return ossia_value_create_byte_array(b.data(), b.size());
    }
    case MV::LIST:
    {
      bool ints = true, floats = true;
      for (auto& x : m.l)
      {
        ints &= x.t == MV::INT;
        floats &= x.t == MV::FLOAT;
      }
      if (ints && c.coin())
      {
        std::vector<int> v;
        for (auto& x : m.l)
          v.push_back(x.i);
        return ossia_value_create_in(v.data(), v.size());
      }
      if (floats && c.coin())
      {
        std::vector<float> v;
        for (auto& x : m.l)
          v.push_back(x.f);
        return ossia_value_create_fn(v.data(), v.size());
      }
      std::vector<ossia_value_t> v;
      for (auto& x : m.l)
        v.push_back(make(c, x));
      auto r = ossia_value_create_list(v.data(), v.size());
      for (auto x : v)
        ossia_value_free(x);
      return r;
    }
    default:
      return ossia_value_create_int(0);
  }
}

static MV gen(vf::Case& c)
{
  for (;;)
  {
    MV m;
    if (c.chance(1, 6)) // a list of numbers
    {
      m.t = MV::LIST;
      const auto t = c.coin() ? MV::INT : MV::FLOAT;
      for (int i = 0; c.more(i, 6, 3); i++)
      {
        MV x;
        x.t = t;
        if (t == MV::INT)
          x.i = c.i32();
        else
          x.f = c.f32();
        m.l.push_back(x);
      }
    }
    else
      m = gv::gen(c);
    if (m.t == MV::STRING && c.chance(1, 3)) // bytes
      for (int i = 0; c.more(i, 5, 2); i++)
        m.s.insert(m.s.begin() + c.draw(m.s.size() + 1), (char)(c.coin() ? 0 : c.range(0, 255)));
    // no value without a type can be made through the C API
    struct
    {
      bool operator()(const MV& m) const
      {
        if (m.t == MV::NONE)
          return true;
        for (auto& x : m.l)
          if ((*this)(x))
            return true;
        return false;
      }
    } none;
    if (!none(m))
      return m;
    MV i;
    i.t = MV::INT;
    i.i = 3;
    return i;
  }
}

static void expect_text(const char* s, const std::string& want, const char* what)
{
  VF_CHECK(s != nullptr, std::string(what) + " gives no text, expected " + want);
  const std::string got = s, w = want.c_str();
  free((void*)s);
  if (got != w)
    VF_FAIL(std::string(what) + " gives [" + got + "], expected [" + w + "]");
}

// reads the value with the function of its type
static void read_back(ossia_value_t v, const MV& m)
{
  if ((int)ossia_value_get_type(v) != (int)gv::vt(m.t))
    VF_FAIL("ossia_value_get_type: " + std::to_string((int)ossia_value_get_type(v)) + " for " + gv::show(m));
  bool ok = true;
  switch (m.t)
  {
    case MV::FLOAT:
      ok = gv::same_float(ossia_value_to_float(v), m.f);
      break;
    case MV::INT:
      ok = ossia_value_to_int(v) == m.i;
      break;
    case MV::VEC2:
    {
      auto r = ossia_value_to_2f(v);
      ok = !memcmp(r.val, m.v.data(), 8);
      break;
    }
    case MV::VEC3:
    {
      auto r = ossia_value_to_3f(v);
      ok = !memcmp(r.val, m.v.data(), 12);
      break;
    }
    case MV::VEC4:
    {
      auto r = ossia_value_to_4f(v);
      ok = !memcmp(r.val, m.v.data(), 16);
      break;
    }
    case MV::BOOL:
      ok = ossia_value_to_bool(v) == (m.i ? 1 : 0);
      break;
    case MV::CHAR:
      ok = ossia_value_to_char(v) == (char)m.i;
      break;
    case MV::STRING:
    {
      auto s = ossia_value_to_string(v);
      VF_CHECK(s && std::string(s) == m.s.c_str(), "ossia_value_to_string of " + gv::show(m));
      ossia_string_free((char*)s);
      char* p{};
      size_t n = 77;
      ossia_value_to_byte_array(v, &p, &n);
      VF_CHECK(p && std::string(p, n) == m.s, "ossia_value_to_byte_array of " + gv::show(m));
      ossia_string_free(p);
      break;
    }
    case MV::LIST:
    {
      ossia_value_t* p{};
      size_t n = 77;
      ossia_value_to_list(v, &p, &n);
      VF_CHECK(n == m.l.size(), "ossia_value_to_list of " + gv::show(m) + ": " + std::to_string(n) + " values");
      for (size_t i = 0; i < n; i++)
      {
        read_back(p[i], m.l[i]);
        ossia_value_free(p[i]);
      }
      ossia_value_free_list(p);
      bool ints = true, floats = true;
      for (auto& x : m.l)
      {
        ints &= x.t == MV::INT;
        floats &= x.t == MV::FLOAT;
      }
      if (ints)
      {
        int* q{};
        n = 77;
        ossia_value_to_in(v, &q, &n);
        VF_CHECK(n == m.l.size(), "ossia_value_to_in of " + gv::show(m));
        for (size_t i = 0; i < n; i++)
          VF_CHECK(q[i] == m.l[i].i, "ossia_value_to_in of " + gv::show(m));
        ossia_value_free_in(q);
      }
      if (floats)
      {
        float* q{};
        n = 77;
        ossia_value_to_fn(v, &q, &n);
        VF_CHECK(n == m.l.size(), "ossia_value_to_fn of " + gv::show(m));
        for (size_t i = 0; i < n; i++)
          VF_CHECK(gv::same_float(q[i], m.l[i].f), "ossia_value_to_fn of " + gv::show(m));
        ossia_value_free_fn(q);
      }
      break;
    }
    default:
      break;
  }
  if (!ok)
    VF_FAIL("reading back " + gv::show(m) + " through the C API");
}

static void conversions(ossia_value_t v, const ossia::value& x)
{
  const auto what = [&](const char* f) { return std::string(f) + " of " + gv::show(x); };
  VF_CHECK(ossia_value_convert_int(v) == ossia::convert<int>(x), what("ossia_value_convert_int"));
  VF_CHECK(gv::same_float(ossia_value_convert_float(v), ossia::convert<float>(x)), what("ossia_value_convert_float"));
  VF_CHECK(ossia_value_convert_bool(v) == (int)ossia::convert<bool>(x), what("ossia_value_convert_bool"));
  VF_CHECK(ossia_value_convert_char(v) == ossia::convert<char>(x), what("ossia_value_convert_char"));
  auto r2 = ossia_value_convert_2f(v);
  auto w2 = ossia::convert<ossia::vec2f>(x);
  VF_CHECK(!memcmp(r2.val, w2.data(), 8), what("ossia_value_convert_2f"));
  auto r3 = ossia_value_convert_3f(v);
  auto w3 = ossia::convert<ossia::vec3f>(x);
  VF_CHECK(!memcmp(r3.val, w3.data(), 12), what("ossia_value_convert_3f"));
  auto r4 = ossia_value_convert_4f(v);
  auto w4 = ossia::convert<ossia::vec4f>(x);
  VF_CHECK(!memcmp(r4.val, w4.data(), 16), what("ossia_value_convert_4f"));
  {
    char* p{};
    size_t n = 77;
    ossia_value_convert_byte_array(v, &p, &n);
    VF_CHECK(p && std::string(p, n) == ossia::convert<std::string>(x), what("ossia_value_convert_byte_array"));
    ossia_string_free(p);
  }
  {
    const auto w = ossia::convert<std::vector<ossia::value>>(x);
    ossia_value_t* p{};
    size_t n = 77;
    ossia_value_convert_list(v, &p, &n);
    VF_CHECK(p && n == w.size(), what("ossia_value_convert_list"));
    for (size_t i = 0; i < n; i++)
    {
      read_back(p[i], gv::from_value(w[i]));
      ossia_value_free(p[i]);
    }
    ossia_value_free_list(p);
  }
}

VF_PROP(values, 30000, 400000)
{
  const auto m = gen(c);
  NOTE("value", gv::show(m));
  if (m.t == MV::LIST || m.t == MV::STRING)
    c.nontrivial();
  auto v = make(c, m);
  VF_CHECK(v && same(v->value, m), "made " + gv::show(v->value) + " for " + gv::show(m));
  read_back(v, m);
  const ossia::value before = v->value;
  conversions(v, before);
  VF_CHECK(same(v->value, m), "reading changed the value");
  ossia_value_free(v);
}

// ---------------------------------------------------------------- domains
static std::string show(const ossia::domain& d) { return d.to_pretty_string(); }

static void same_domain(ossia_domain_t d, const ossia::domain& w, const char* what)
{
  VF_CHECK(d != nullptr, std::string(what) + ": no domain");
  if (!(d->domain == w))
    VF_FAIL(std::string(what) + ": " + show(d->domain) + " instead of " + show(w));
  auto mi = ossia_domain_get_min(d), ma = ossia_domain_get_max(d);
  VF_CHECK(mi && same(mi->value, ossia::get_min(w)), std::string(what) + ": minimum of " + show(w));
  VF_CHECK(ma && same(ma->value, ossia::get_max(w)), std::string(what) + ": maximum of " + show(w));
  ossia_value_free(mi);
  ossia_value_free(ma);
  ossia_value_t* p{};
  size_t n = 77;
  ossia_domain_get_values(d, &p, &n);
  const auto vals = ossia::get_values(w);
  VF_CHECK(n == vals.size(), std::string(what) + ": values of " + show(w));
  for (size_t i = 0; i < n; i++)
  {
    VF_CHECK(same(p[i]->value, vals[i]), std::string(what) + ": values of " + show(w));
    ossia_value_free(p[i]);
  }
  ossia_value_free_list(p);
}

static MV small(vf::Case& c, int kind)
{
  MV m;
  switch (kind)
  {
    case 0:
      m.t = MV::INT;
      m.i = (int)c.range(-9, 9);
      break;
    case 1:
      m.t = MV::FLOAT;
      m.f = (float)c.range(-9, 9) / 2;
      break;
    case 2:
      m.t = MV::STRING;
      m.s = std::string(1 + c.draw(3), (char)c.range('a', 'd'));
      break;
    case 3:
      m.t = MV::VEC3;
      for (int i = 0; i < 3; i++)
        m.v[i] = (float)c.range(-4, 4);
      break;
    case 4:
      m.t = MV::BOOL;
      m.i = c.coin();
      break;
    default:
      m.t = MV::CHAR;
      m.i = (int)c.range('a', 'z');
      break;
  }
  return m;
}

static ossia_domain_t make_domain_c(vf::Case& c, ossia::domain& w)
{
  switch (c.draw(6))
  {
    case 0:
      w = ossia::domain{};
      return ossia_domain_create();
    case 1:
    {
      const int k = (int)c.draw(6);
      auto a = small(c, k), b = small(c, k);
      const bool na = c.chance(1, 5), nb = c.chance(1, 5);
      ossia::value va, vb;
      if (!na)
        va = gv::to_value(a);
      if (!nb)
        vb = gv::to_value(b);
      w = ossia::make_domain(va, vb);
      auto x = na ? nullptr : make(c, a), y = nb ? nullptr : make(c, b);
      auto d = ossia_domain_make_min_max(x, y);
      ossia_value_free(x);
      ossia_value_free(y);
      return d;
    }
    case 2:
    {
      std::vector<int> v;
      for (int i = 0; c.more(i, 5, 3); i++)
        v.push_back((int)c.range(-9, 9));
      ossia::domain_base<int> d;
      for (int x : v)
        d.values.push_back(x);
      w = d;
      return ossia_domain_make_int_set(v.data(), v.size());
    }
    case 3:
    {
      std::vector<float> v;
      for (int i = 0; c.more(i, 5, 3); i++)
        v.push_back((float)c.range(-9, 9) / 4);
      ossia::domain_base<float> d;
      for (float x : v)
        d.values.push_back(x);
      w = d;
      return ossia_domain_make_float_set(v.data(), v.size());
    }
    case 4:
    {
      std::vector<std::string> s;
      for (int i = 0; c.more(i, 5, 3); i++)
        s.push_back(small(c, 2).s);
      std::vector<const char*> p;
      for (auto& x : s)
        p.push_back(x.c_str());
      if (s.empty())
      {
        s.push_back("a");
        p.push_back(s[0].c_str());
      }
      ossia::domain_base<std::string> d;
      for (auto& x : s)
        d.values.push_back(x);
      w = d;
      return ossia_domain_make_string_set(p.data(), p.size());
    }
    default:
    {
      std::vector<ossia_value_t> p;
      ossia::domain_base<ossia::value> d;
      for (int i = 0; c.more(i, 5, 3); i++)
      {
        auto m = small(c, (int)c.draw(6));
        p.push_back(make(c, m));
        d.values.push_back(gv::to_value(m));
      }
      w = d;
      auto r = ossia_domain_make_value_set(p.data(), p.size());
      for (auto x : p)
        ossia_value_free(x);
      return r;
    }
  }
}

static void edit_domain(vf::Case& c, ossia_domain_t d, ossia::domain& w)
{
  switch (c.draw(3))
  {
    case 0:
    case 1:
    {
      auto m = small(c, (int)c.draw(6));
      auto v = make(c, m);
      if (c.coin())
      {
        NOTE("set min", gv::show(m));
        ossia_domain_set_min(d, v);
        ossia::set_min(w, gv::to_value(m));
      }
      else
      {
        NOTE("set max", gv::show(m));
        ossia_domain_set_max(d, v);
        ossia::set_max(w, gv::to_value(m));
      }
      ossia_value_free(v);
      break;
    }
    default:
    {
      const int k = (int)c.draw(6);
      std::vector<ossia_value_t> p;
      std::vector<ossia::value> l;
      for (int i = 0; c.more(i, 5, 3); i++)
      {
        auto m = small(c, c.chance(1, 8) ? (int)c.draw(6) : k);
        p.push_back(make(c, m));
        l.push_back(gv::to_value(m));
      }
      NOTE("set values", gv::show(ossia::value{l}));
      p.push_back(nullptr); // never a null array
      ossia_domain_set_values(d, p.data(), p.size() - 1);
      ossia::set_values(w, l);
      for (auto x : p)
        ossia_value_free(x);
    }
  }
}

VF_PROP(domains, 20000, 300000)
{
  ossia::domain w;
  auto d = make_domain_c(c, w);
  NOTE("domain", show(w));
  same_domain(d, w, "as made");
  if (w)
    c.nontrivial();
  for (int i = 0; c.more(i, 5, 2); i++)
  {
    edit_domain(c, d, w);
    same_domain(d, w, "after an edit");
  }
  ossia_domain_free(d);
}

// ---------------------------------------------------------------- devices
struct recorder : protocol_base
{
  std::vector<std::string>* log;
  recorder(std::vector<std::string>& l) : protocol_base{flags{SupportsMultiplex}}, log{&l} { }
  static std::string at(const parameter_base& p) { return osc_parameter_string(p); }
  bool pull(parameter_base& p) override
  {
    log->push_back("pull " + at(p));
    if (p.get_value_type() == ossia::val_type::INT)
      p.set_value(42);
    return true;
  }
  bool push(const parameter_base& p, const ossia::value& v) override
  {
    if (!p.filter_value(v))
      log->push_back("push " + at(p) + " " + gv::show(v));
    else
      log->push_back("filtered " + at(p));
    return true;
  }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base& p, bool b) override
  {
    log->push_back((b ? "observe " : "unobserve ") + at(p));
    return true;
  }
  bool update(node_base& n) override
  {
    log->push_back("update " + n.get_name());
    return true;
  }
};

struct sub // a subscription
{
  std::vector<std::string>* log;
  std::string id;
  // C side
  static void value(void* p, ossia_value_t v)
  {
    auto s = (sub*)p;
    s->log->push_back(s->id + " value " + gv::show(v->value));
    ossia_value_free(v);
  }
  static void node(void* p, ossia_node_t n)
  {
    auto s = (sub*)p;
    s->log->push_back(s->id + " node " + osc_parameter_string(*(node_base*)n));
  }
  static void param(void* p, ossia_parameter_t n)
  {
    auto s = (sub*)p;
    s->log->push_back(s->id + " param " + osc_parameter_string(*(parameter_base*)n));
  }
  // C++ side
  void on_node(const node_base& n) { log->push_back(id + " node " + osc_parameter_string(n)); }
  void on_param(const parameter_base& p) { log->push_back(id + " param " + osc_parameter_string(p)); }
};

struct world
{
  std::vector<std::string> logc, logw;
  std::vector<std::unique_ptr<sub>> subs;
  ossia_device_t dev{};
  std::unique_ptr<generic_device> twin;
  std::string name;
  struct VC
  {
    node_base *n, *w;
    ossia_value_callback_idx_t ic;
    parameter_base::callback_index iw;
    int id;
  };
  struct NC
  {
    int kind; // 0 created, 1 removing, 2 parameter removing, 3 node deleting
    node_base *n{}, *w{};
    void* ic;
    sub* sw;
  };
  std::vector<VC> vcs;
  std::vector<NC> ncs;
  std::map<node_base*, parameter_base::callback_index> listening; // by node of the twin
  std::set<node_base*> registered;
  ossia_mq_t mq{};
  std::unique_ptr<ossia::message_queue> tq;
  int ids{};

  sub* make_sub(std::vector<std::string>& l, int id)
  {
    subs.push_back(std::make_unique<sub>(sub{&l, std::to_string(id)}));
    return subs.back().get();
  }
  void logs(const char* when)
  {
    if (logc != logw)
    {
      std::string a, b;
      for (auto& x : logc)
        a += x + " | ";
      for (auto& x : logw)
        b += x + " | ";
      VF_FAIL(std::string(when) + ": with the C API " + a + " with the C++ library " + b);
    }
    logc.clear();
    logw.clear();
  }
  // every node of both trees, pairwise, in the order of the children
  void walk(node_base& a, node_base& b, std::vector<std::pair<node_base*, node_base*>>& out)
  {
    VF_CHECK(a.get_name() == b.get_name() || out.empty(), "a node is named " + a.get_name() + " instead of " + b.get_name());
    out.push_back({&a, &b});
    auto ca = a.children_copy(), cb = b.children_copy();
    VF_CHECK(ca.size() == cb.size(), "children of " + osc_parameter_string(b) + ": " + std::to_string(ca.size())
                                         + " instead of " + std::to_string(cb.size()));
    for (size_t i = 0; i < ca.size(); i++)
      walk(*ca[i], *cb[i], out);
  }
  std::vector<std::pair<node_base*, node_base*>> nodes()
  {
    std::vector<std::pair<node_base*, node_base*>> r;
    walk(dev->device->get_root_node(), *twin, r);
    return r;
  }
  // forget what belonged to nodes of the twin which will go away (n and below, or only its parameter)
  void forget(node_base& w, bool only_param)
  {
    std::erase_if(vcs, [&](auto& v) {
      if (v.w != &w)
        return false;
      ossia_parameter_free_callback_idx(v.ic);
      return true;
    });
    listening.erase(&w);
    registered.erase(&w);
    if (!only_param)
    {
      // the callbacks of the node are kept until it is deleted, then cannot be removed
      std::erase_if(ncs, [&](auto& v) { return v.w == &w; });
      for (auto x : w.children_copy())
        forget(*x, false);
    }
  }
};

static const char* const SEG[] = {"a", "b", "c", "a.1", "foo"};
static std::string gen_path(vf::Case& c)
{
  std::string s;
  for (int i = 0; i == 0 || c.more(i, 3, 1); i++)
    s += std::string("/") + SEG[c.draw(5)];
  return s;
}
static std::string gen_pattern(vf::Case& c, bool create)
{
  static const char* const CR[] = {"{a,b}", "x.[0-2]", "{c,d}.[1-2]", "a"};
  static const char* const FI[] = {"{a,b}", "*", "a*", "?", "a.[0-2]"};
  std::string s;
  for (int i = 0; i == 0 || c.more(i, 2, 1); i++)
    s += std::string("/") + (c.chance(1, 3) ? SEG[c.draw(5)] : create ? CR[c.draw(4)] : FI[c.draw(5)]);
  return s;
}

static void compare_param(parameter_base& p, parameter_base& w)
{
  const auto at = osc_parameter_string(w);
  auto v = ossia_parameter_get_value(&p);
  VF_CHECK(v && same(v->value, w.value()),
           "ossia_parameter_get_value of " + at + ": " + (v ? gv::show(v->value) : "") + " instead of " + gv::show(w.value()));
  ossia_value_free(v);
  VF_CHECK((int)ossia_parameter_get_access_mode(&p) == (int)w.get_access(), "access mode of " + at);
  VF_CHECK((int)ossia_parameter_get_bounding_mode(&p) == (int)w.get_bounding(), "bounding mode of " + at);
  VF_CHECK(ossia_parameter_get_muted(&p) == (int)w.get_muted(), "muting of " + at);
  VF_CHECK(ossia_parameter_get_critical(&p) == (int)w.get_critical(), "critical of " + at);
  VF_CHECK(ossia_parameter_get_disabled(&p) == (int)w.get_disabled(), "disabling of " + at);
  VF_CHECK(ossia_parameter_get_repetition_filter(&p) == (w.get_repetition_filter() == ossia::repetition_filter::ON),
           "repetition filter of " + at);
  VF_CHECK(std::string(ossia_parameter_get_unit(&p)) == ossia::get_pretty_unit_text(w.get_unit()), "unit of " + at);
  auto d = ossia_parameter_get_domain(&p);
  same_domain(d, w.get_domain(), "domain of a parameter");
  ossia_domain_free(d);
  VF_CHECK(p.get_value_type() == w.get_value_type(), "type of " + at);

  // the functions which read the value of a type
  const auto m = gv::from_value(w.value());
  bool ok = true;
  switch (m.t)
  {
    case MV::FLOAT:
      ok = gv::same_float(ossia_parameter_to_float(&p), m.f);
      break;
    case MV::INT:
      ok = ossia_parameter_to_int(&p) == m.i;
      break;
    case MV::VEC2:
    {
      auto r = ossia_parameter_to_2f(&p);
      ok = !memcmp(r.val, m.v.data(), 8);
      break;
    }
    case MV::VEC3:
    {
      auto r = ossia_parameter_to_3f(&p);
      ok = !memcmp(r.val, m.v.data(), 12);
      break;
    }
    case MV::VEC4:
    {
      auto r = ossia_parameter_to_4f(&p);
      ok = !memcmp(r.val, m.v.data(), 16);
      break;
    }
    case MV::BOOL:
      ok = ossia_parameter_to_bool(&p) == (m.i ? 1 : 0);
      break;
    case MV::CHAR:
      ok = ossia_parameter_to_char(&p) == (char)m.i;
      break;
    default:
      break;
  }
  VF_CHECK(ok, "reading " + gv::show(m) + " from " + at);
  {
    char* q = (char*)8;
    size_t n = 77;
    ossia_parameter_to_byte_array(&p, &q, &n);
    if (m.t == MV::STRING)
    {
      VF_CHECK(n == m.s.size() && std::string(q, n) == m.s, "ossia_parameter_to_byte_array of " + at);
      ossia_string_free(q);
      auto s = ossia_parameter_to_string(&p);
      VF_CHECK(s && std::string(s) == m.s.c_str(), "ossia_parameter_to_string of " + at);
      ossia_string_free((char*)s);
    }
    else
      VF_CHECK(q == nullptr && n == 0, "ossia_parameter_to_byte_array of " + at + ", which is not text");
  }
  {
    ossia_value_t* q = (ossia_value_t*)8;
    size_t n = 77;
    ossia_parameter_to_list(&p, &q, &n);
    if (m.t == MV::LIST)
    {
      VF_CHECK(n == m.l.size(), "ossia_parameter_to_list of " + at);
      for (size_t i = 0; i < n; i++)
      {
        VF_CHECK(same(q[i]->value, m.l[i]), "ossia_parameter_to_list of " + at);
        ossia_value_free(q[i]);
      }
      ossia_value_free_list(q);
    }
    else
      VF_CHECK(q == nullptr && n == 0, "ossia_parameter_to_list of " + at + ", which is not a list");
  }
  bool ints = true, floats = true;
  for (auto& x : m.l)
  {
    ints &= x.t == MV::INT;
    floats &= x.t == MV::FLOAT;
  }
  if (ints)
  {
    int* q = (int*)8;
    size_t n = 77;
    ossia_parameter_to_in(&p, &q, &n);
    VF_CHECK(n == m.l.size(), "ossia_parameter_to_in of " + at + ": " + std::to_string(n) + " values");
    for (size_t i = 0; i < n; i++)
      VF_CHECK(q[i] == m.l[i].i, "ossia_parameter_to_in of " + at);
    if (m.t == MV::LIST)
      ossia_value_free_in(q);
    else
      VF_CHECK(q == nullptr, "ossia_parameter_to_in of " + at + ", which is not a list");
  }
  if (floats)
  {
    float* q = (float*)8;
    size_t n = 77;
    ossia_parameter_to_fn(&p, &q, &n);
    VF_CHECK(n == m.l.size(), "ossia_parameter_to_fn of " + at + ": " + std::to_string(n) + " values");
    for (size_t i = 0; i < n; i++)
      VF_CHECK(gv::same_float(q[i], m.l[i].f), "ossia_parameter_to_fn of " + at);
    if (m.t == MV::LIST)
      ossia_value_free_fn(q);
    else
      VF_CHECK(q == nullptr, "ossia_parameter_to_fn of " + at + ", which is not a list");
  }
}

template <typename T, typename F>
static void compare_opt(F get, const std::optional<T>& w, const std::string& what)
{
  int has = 77;
  const T r = get(&has);
  VF_CHECK(has == (w ? 1 : 0), what + ": present is " + std::to_string(has));
  VF_CHECK(r == (w ? *w : T{}), what);
  VF_CHECK(get(nullptr) == r, what + " without asking for its presence");
}

static void compare_node(world& x, node_base& n, node_base& w)
{
  const auto at = osc_parameter_string(w);
  expect_text(ossia_node_get_name(&n), w.get_name(), "ossia_node_get_name");
  VF_CHECK(ossia_node_get_device(&n) == x.dev, "ossia_node_get_device of " + at);
  const auto ch = n.children_copy();
  VF_CHECK(ossia_node_child_size(&n) == (int)ch.size(), "ossia_node_child_size of " + at);
  for (int i = 0; i < (int)ch.size(); i++)
  {
    VF_CHECK(ossia_node_get_child(&n, i) == ch[i], "ossia_node_get_child " + std::to_string(i) + " of " + at);
    VF_CHECK(ossia_node_find_child(&n, ch[i]->get_name().c_str()) == ch[i], "ossia_node_find_child of " + at);
  }
  for (int i : {-1, (int)ch.size(), (int)ch.size() + 1})
    VF_CHECK(ossia_node_get_child(&n, i) == nullptr, "ossia_node_get_child " + std::to_string(i) + " of " + at + " which has "
                                                         + std::to_string(ch.size()) + " children");
  VF_CHECK(ossia_node_find_child(&n, "nobody") == nullptr, "ossia_node_find_child of " + at);
  VF_CHECK(ossia_node_get_parameter(&n) == n.get_parameter(), "ossia_node_get_parameter of " + at);
  VF_CHECK(!n.get_parameter() == !w.get_parameter(), "whether " + at + " has a parameter");

  if (auto d = ossia::net::get_description(w))
  {
    auto s = ossia_node_get_description(&n);
    VF_CHECK(s && *d == s, "description of " + at);
    ossia_string_free((char*)s);
  }
  else
    VF_CHECK(!ossia_node_get_description(&n), "description of " + at);
  if (auto d = ossia::net::get_extended_type(w))
  {
    auto s = ossia_node_get_extended_type(&n);
    VF_CHECK(s && *d == s, "extended type of " + at);
    ossia_string_free((char*)s);
  }
  else
    VF_CHECK(!ossia_node_get_extended_type(&n), "extended type of " + at);
  {
    char** t = (char**)8;
    size_t k = 77;
    ossia_node_get_tags(&n, &t, &k);
    auto tg = ossia::net::get_tags(w);
    const size_t N = tg ? tg->size() : 0;
    VF_CHECK(k == N, "tags of " + at + ": " + std::to_string(k) + " instead of " + std::to_string(N));
    for (size_t i = 0; i < N; i++)
      VF_CHECK((*tg)[i] == t[i], "tags of " + at);
    if (N)
      ossia_tags_free(t, k);
    else
      VF_CHECK(t == nullptr, "tags of " + at + ", which has none");
  }
  VF_CHECK(ossia_node_get_hidden(&n) == (int)ossia::net::get_hidden(w), "hidden of " + at);
  compare_opt<float>([&](int* b) { return ossia_node_get_priority(&n, b); }, ossia::net::get_priority(w), "priority of " + at);
  compare_opt<int>([&](int* b) { return ossia_node_get_refresh_rate(&n, b); }, ossia::net::get_refresh_rate(w),
                   "refresh rate of " + at);
  compare_opt<double>([&](int* b) { return ossia_node_get_value_step_size(&n, b); }, ossia::net::get_value_step_size(w),
                      "step size of " + at);
  {
    int a = 77, b = 78, has = 79;
    ossia_node_get_instance_bounds(&n, &a, &b, &has);
    auto i = ossia::net::get_instance_bounds(w);
    VF_CHECK(has == (i ? 1 : 0), "instance bounds of " + at);
    if (i)
      VF_CHECK(a == i->min_instances && b == i->max_instances, "instance bounds of " + at);
  }
  {
    auto v = ossia_node_get_default_value(&n);
    auto d = ossia::net::get_default_value(w);
    VF_CHECK(!v == !d, "presence of the default value of " + at);
    if (d)
      VF_CHECK(same(v->value, *d), "default value of " + at + ": " + gv::show(v->value) + " instead of " + gv::show(*d));
    ossia_value_free(v);
  }
  if (auto p = w.get_parameter())
  {
    VF_CHECK(ossia_parameter_get_node(n.get_parameter()) == &n, "ossia_parameter_get_node of " + at);
    compare_param(*n.get_parameter(), *p);
  }
}

static void compare(world& x)
{
  for (auto [a, b] : x.nodes())
    compare_node(x, *a, *b);
  x.logs("logs");
}

static std::vector<std::string> paths(const ossia_node_t* d, size_t n)
{
  std::vector<std::string> r;
  for (size_t i = 0; i < n; i++)
    r.push_back(osc_parameter_string(*(node_base*)d[i]));
  return r;
}

static void push(vf::Case& c, parameter_base& p, parameter_base& w)
{
  auto m = gen(c);
  NOTE("push", osc_parameter_string(w) + " " + gv::show(m));
  const auto x = gv::to_value(m);
  if (c.chance(1, 3))
  {
    auto v = make(c, m);
    if (c.coin())
    {
      ossia_parameter_push_value(&p, v);
      w.push_value(x);
    }
    else
    {
      ossia_parameter_set_value(&p, v);
      w.set_value(x);
    }
    ossia_value_free(v);
    return;
  }
  switch (m.t)
  {
    case MV::FLOAT:
      ossia_parameter_push_f(&p, m.f);
      break;
    case MV::INT:
      ossia_parameter_push_i(&p, m.i);
      break;
    case MV::VEC2:
      ossia_parameter_push_2f(&p, m.v[0], m.v[1]);
      break;
    case MV::VEC3:
      ossia_parameter_push_3f(&p, m.v[0], m.v[1], m.v[2]);
      break;
    case MV::VEC4:
      ossia_parameter_push_4f(&p, m.v[0], m.v[1], m.v[2], m.v[3]);
      break;
    case MV::IMPULSE:
      ossia_parameter_push_impulse(&p);
      break;
    case MV::BOOL:
      ossia_parameter_push_b(&p, m.i ? (c.coin() ? 1 : 256) : 0);
      break;
    case MV::CHAR:
      ossia_parameter_push_c(&p, (char)m.i);
      break;
    case MV::STRING:
      if (m.s.find('\0') == std::string::npos && c.coin())
        ossia_parameter_push_s(&p, m.s.c_str());
      else
      {
        std::vector<char> b(m.s.begin(), m.s.end()); // not terminated
        b.reserve(1);
        ossia_parameter_push_cn(&p, b.data(), b.size());
      }
      break;
    default:
    {
      bool ints = true, floats = true;
      for (auto& e : m.l)
      {
        ints &= e.t == MV::INT;
        floats &= e.t == MV::FLOAT;
      }
      if (ints && !m.l.empty())
      {
        std::vector<int> v;
        for (auto& e : m.l)
          v.push_back(e.i);
        ossia_parameter_push_in(&p, v.data(), v.size());
      }
      else if (floats && !m.l.empty())
      {
        std::vector<float> v;
        for (auto& e : m.l)
          v.push_back(e.f);
        ossia_parameter_push_fn(&p, v.data(), v.size());
      }
      else
      {
        std::vector<ossia_value_t> v;
        for (auto& e : m.l)
          v.push_back(make(c, e));
        v.push_back(nullptr);
        ossia_parameter_push_list(&p, v.data(), v.size() - 1);
        for (auto e : v)
          ossia_value_free(e);
      }
    }
  }
  w.push_value(x);
}

static void attribute(vf::Case& c, node_base& n, node_base& w)
{
  const auto at = osc_parameter_string(w);
  const bool unset = c.chance(1, 4);
  std::string text;
  for (int i = 0; c.more(i, 8, 4); i++)
    text.push_back((char)c.range(1, 255));
  switch (c.draw(9))
  {
    case 0:
      NOTE("description", at + " " + text);
      ossia_node_set_description(&n, text.c_str());
      ossia::net::set_description(w, text);
      break;
    case 1:
      NOTE("extended type", at + " " + (unset ? "-" : text));
      ossia_node_set_extended_type(&n, unset ? nullptr : text.c_str());
      if (unset)
        ossia::net::set_extended_type(w, std::nullopt);
      else
        ossia::net::set_extended_type(w, text);
      break;
    case 2:
    {
      std::vector<std::string> t;
      for (int i = 0; c.more(i, 4, 2); i++)
        t.push_back(text + std::to_string(i));
      std::vector<const char*> p;
      for (auto& s : t)
        p.push_back(s.c_str());
      NOTE("tags", at + " " + std::to_string(t.size()));
      ossia_node_set_tags(&n, p.empty() ? nullptr : p.data(), p.size());
      if (t.empty())
        ossia::net::set_tags(w, {});
      else
        ossia::net::set_tags(w, t);
      break;
    }
    case 3:
      NOTE("hidden", at);
      ossia_node_set_hidden(&n, unset ? 0 : 2);
      ossia::net::set_hidden(w, !unset);
      break;
    case 4:
    {
      const float f = (float)c.range(-9, 9) / 2;
      NOTE("priority", at);
      if (unset)
      {
        ossia_node_unset_priority(&n);
        ossia::net::set_priority(w, std::nullopt);
      }
      else
      {
        ossia_node_set_priority(&n, f);
        ossia::net::set_priority(w, f);
      }
      break;
    }
    case 5:
    {
      const int f = c.i32();
      NOTE("refresh rate", at);
      if (unset)
      {
        ossia_node_unset_refresh_rate(&n);
        ossia::net::set_refresh_rate(w, std::nullopt);
      }
      else
      {
        ossia_node_set_refresh_rate(&n, f);
        ossia::net::set_refresh_rate(w, f);
      }
      break;
    }
    case 6:
    {
      const double f = (double)c.range(-900, 900) / 7;
      NOTE("step size", at);
      if (unset)
      {
        ossia_node_unset_value_step_size(&n);
        ossia::net::set_value_step_size(w, std::nullopt);
      }
      else
      {
        ossia_node_set_value_step_size(&n, f);
        ossia::net::set_value_step_size(w, f);
      }
      break;
    }
    case 7:
    {
      const int a = (int)c.range(0, 4), b = a + (int)c.range(0, 90);
      NOTE("instance bounds", at);
      if (unset)
      {
        ossia_node_unset_instance_bounds(&n);
        ossia::net::set_instance_bounds(w, std::nullopt);
      }
      else
      {
        ossia_node_set_instance_bounds(&n, a, b);
        ossia::net::set_instance_bounds(w, instance_bounds{a, b});
      }
      break;
    }
    default:
    {
      auto m = gen(c);
      NOTE("default value", at + " " + (unset ? "-" : gv::show(m)));
      if (unset)
      {
        ossia_node_set_default_value(&n, nullptr);
        ossia::net::set_default_value(w, std::nullopt);
      }
      else
      {
        auto v = make(c, m);
        ossia_node_set_default_value(&n, v);
        ossia_value_free(v);
        ossia::net::set_default_value(w, gv::to_value(m));
      }
    }
  }
}

static void properties(vf::Case& c, world& x, node_base& n, parameter_base& p, parameter_base& w)
{
  const auto at = osc_parameter_string(w);
  switch (c.draw(9))
  {
    case 0:
    {
      int a = (int)c.draw(3);
      NOTE("access", at + " " + std::to_string(a));
      ossia_parameter_set_access_mode(&p, (ossia_access_mode)a);
      w.set_access((ossia::access_mode)a);
      break;
    }
    case 1:
    {
      int a = (int)c.draw(6);
      static const ossia::bounding_mode B[] = {ossia::bounding_mode::FREE, ossia::bounding_mode::CLIP, ossia::bounding_mode::WRAP,
                                               ossia::bounding_mode::FOLD, ossia::bounding_mode::LOW,  ossia::bounding_mode::HIGH};
      static const ossia_bounding_mode BC[] = {FREE, CLIP, WRAP, FOLD, LOW, HIGH};
      NOTE("bounding", at + " " + std::to_string(a));
      ossia_parameter_set_bounding_mode(&p, BC[a]);
      w.set_bounding(B[a]);
      break;
    }
    case 2:
    {
      ossia::domain d;
      auto dc = make_domain_c(c, d);
      NOTE("domain", at + " " + show(d));
      ossia_parameter_set_domain(&p, dc);
      w.set_domain(d);
      ossia_domain_free(dc);
      break;
    }
    case 3:
    {
      static const char* const U[] = {"distance.m", "color.rgb", "m", "nothing", "gain.db", "position.cart3D", "degree"};
      auto u = U[c.draw(7)];
      NOTE("unit", at + " " + u);
      ossia_parameter_set_unit(&p, u);
      w.set_unit(ossia::parse_pretty_unit(u));
      break;
    }
    case 4:
    {
      const bool b = c.coin();
      NOTE("muted", at);
      ossia_parameter_set_muted(&p, b ? 4 : 0);
      w.set_muted(b);
      break;
    }
    case 5:
    {
      const bool b = c.coin();
      NOTE("critical", at);
      ossia_parameter_set_critical(&p, b ? 4 : 0);
      w.set_critical(b);
      break;
    }
    case 6:
    {
      const bool b = c.coin();
      NOTE("disabled", at);
      ossia_parameter_set_disabled(&p, b ? 4 : 0);
      w.set_disabled(b);
      break;
    }
    case 7:
    {
      const bool b = c.coin();
      NOTE("repetition filter", at);
      ossia_parameter_set_repetition_filter(&p, b ? 4 : 0);
      w.set_repetition_filter(b ? ossia::repetition_filter::ON : ossia::repetition_filter::OFF);
      break;
    }
    default:
    {
      NOTE("fetch", at);
      auto v = ossia_parameter_fetch_value(&p);
      auto e = w.fetch_value();
      VF_CHECK(v && same(v->value, e), "ossia_parameter_fetch_value of " + at);
      ossia_value_free(v);
    }
  }
}

static void subscriptions(vf::Case& c, world& x, node_base& n, node_base& w)
{
  auto p = n.get_parameter(), q = w.get_parameter();
  const auto at = osc_parameter_string(w);
  switch (c.draw(p ? 9 : 3))
  {
    case 0: // the device or the node
    {
      const int kind = (int)c.draw(4), id = x.ids++;
      auto a = x.make_sub(x.logc, id), b = x.make_sub(x.logw, id);
      world::NC nc{kind, &n, &w, nullptr, b};
      NOTE("subscribe", at + " kind " + std::to_string(kind));
      switch (kind)
      {
        case 0:
          nc.ic = ossia_device_add_node_created_callback(x.dev, sub::node, a);
          x.twin->on_node_created.connect<&sub::on_node>(*b);
          break;
        case 1:
          nc.ic = ossia_device_add_node_removing_callback(x.dev, sub::node, a);
          x.twin->on_node_removing.connect<&sub::on_node>(*b);
          break;
        case 2:
          nc.ic = ossia_device_add_parameter_deleting_callback(x.dev, sub::param, a);
          x.twin->on_parameter_removing.connect<&sub::on_param>(*b);
          break;
        default:
          nc.ic = ossia_node_add_deleting_callback(&n, sub::node, a);
          w.about_to_be_deleted.connect<&sub::on_node>(*b);
          break;
      }
      VF_CHECK(nc.ic != nullptr, "no index for a callback");
      if (kind < 3)
        nc.n = nc.w = nullptr;
      x.ncs.push_back(nc);
      break;
    }
    case 1:
    case 2:
      if (!x.ncs.empty())
      {
        const auto k = c.draw(x.ncs.size());
        auto nc = x.ncs[k];
        x.ncs.erase(x.ncs.begin() + k);
        NOTE("unsubscribe", "kind " + std::to_string(nc.kind));
        switch (nc.kind)
        {
          case 0:
            ossia_device_remove_node_created_callback(x.dev, (ossia_node_callback_idx_t)nc.ic);
            x.twin->on_node_created.disconnect<&sub::on_node>(*nc.sw);
            break;
          case 1:
            ossia_device_remove_node_removing_callback(x.dev, (ossia_node_callback_idx_t)nc.ic);
            x.twin->on_node_removing.disconnect<&sub::on_node>(*nc.sw);
            break;
          case 2:
            ossia_device_remove_parameter_deleting_callback(x.dev, (ossia_parameter_callback_idx_t)nc.ic);
            x.twin->on_parameter_removing.disconnect<&sub::on_param>(*nc.sw);
            break;
          default:
            ossia_node_remove_deleting_callback(nc.n, (ossia_node_callback_idx_t)nc.ic);
            nc.w->about_to_be_deleted.disconnect<&sub::on_node>(*nc.sw);
        }
      }
      break;
    case 3:
    case 4: // values
    {
      const int id = x.ids++;
      auto a = x.make_sub(x.logc, id), b = x.make_sub(x.logw, id);
      NOTE("add callback", at);
      auto f = [b](const ossia::value& v) { b->log->push_back(b->id + " value " + gv::show(v)); };
      if (c.chance(1, 4))
      {
        ossia_parameter_push_callback(p, sub::value, a);
        q->add_callback(f);
      }
      else
      {
        auto i = ossia_parameter_add_callback(p, sub::value, a);
        VF_CHECK(i != nullptr, "no index for a callback");
        x.vcs.push_back({&n, &w, i, q->add_callback(f), id});
      }
      break;
    }
    case 5:
      if (!x.vcs.empty())
      {
        const auto k = c.draw(x.vcs.size());
        auto v = x.vcs[k];
        x.vcs.erase(x.vcs.begin() + k);
        NOTE("remove callback", osc_parameter_string(*v.w));
        ossia_parameter_remove_callback(v.n->get_parameter(), v.ic);
        v.w->get_parameter()->remove_callback(v.iw);
      }
      break;
    case 6:
    {
      const bool b = c.coin();
      NOTE("listening", at + " " + (b ? "on" : "off"));
      ossia_parameter_set_listening(p, b ? 3 : 0);
      auto it = x.listening.find(&w);
      if (b && it == x.listening.end())
        x.listening[&w] = q->add_callback([](const ossia::value&) {});
      else if (!b && it != x.listening.end())
      {
        q->remove_callback(it->second);
        x.listening.erase(it);
      }
      break;
    }
    case 7:
      NOTE("register in the queue", at);
      if (!x.mq)
      {
        x.mq = ossia_mq_create(x.dev);
        x.tq = std::make_unique<ossia::message_queue>(*x.twin);
      }
      ossia_mq_register(x.mq, p);
      x.tq->reg(*q);
      break;
    default:
      if (x.mq)
      {
        NOTE("unregister from the queue", at);
        ossia_mq_unregister(x.mq, p);
        x.tq->unreg(*q);
      }
  }
}

static void drain(world& x)
{
  if (!x.mq)
    return;
  for (;;)
  {
    ossia_parameter_t p{};
    ossia_value_t v{};
    ossia::received_value r;
    const bool a = ossia_mq_pop(x.mq, &p, &v), b = x.tq->try_dequeue(r);
    VF_CHECK(a == b, std::string("the queue ") + (a ? "holds a message too many" : "misses a message"));
    if (!a)
      return;
    VF_CHECK(v && same(v->value, r.value) && osc_parameter_string(*(parameter_base*)p) == osc_parameter_string(*r.address),
             "a message of the queue");
    ossia_value_free(v);
  }
}

VF_PROP(histories, 6000, 120000)
{
  world x;
  x.name = c.coin() ? "dev" : "my device";
  x.twin = std::make_unique<generic_device>(std::make_unique<recorder>(x.logw), x.name);
  auto proto = new ossia_protocol{new recorder(x.logc)};
  x.dev = ossia_device_create(proto, x.name.c_str());
  VF_CHECK(x.dev, "no device");
  expect_text(ossia_device_get_name(x.dev), x.name, "ossia_device_get_name");
  VF_CHECK(ossia_device_create(nullptr, x.name.c_str()) == x.dev, "a device is found by its name");
  VF_CHECK(ossia_device_get_root_node(x.dev) == &x.dev->device->get_root_node(), "root node");
  x.logs("creation");
  int changes = 0;
  for (int op = 0; c.more(op, 40, 14); op++)
  {
    auto ns = x.nodes();
    auto [n, w] = ns[c.draw(ns.size())];
    const auto at = osc_parameter_string(*w);
    switch (c.draw(16))
    {
      case 0:
      case 1:
      {
        auto path = gen_path(c);
        NOTE("create", at + " " + path);
        auto r = (node_base*)ossia_node_create(n, path.c_str());
        auto& e = ossia::net::create_node(*w, path);
        VF_CHECK(r && osc_parameter_string(*r) == osc_parameter_string(e), "ossia_node_create " + path);
        changes++;
        break;
      }
      case 2:
      {
        auto path = gen_path(c);
        NOTE("find", at + " " + path);
        auto r = (node_base*)ossia_node_find(n, path.c_str());
        auto e = ossia::net::find_node(*w, path);
        VF_CHECK(!r == !e && (!r || osc_parameter_string(*r) == osc_parameter_string(*e)), "ossia_node_find " + path);
        break;
      }
      case 3:
      case 4:
      {
        const bool create = c.chance(1, 3);
        auto path = gen_pattern(c, create);
        NOTE(create ? "create pattern" : "find pattern", at + " " + path);
        ossia_node_t* d = (ossia_node_t*)8;
        size_t k = 77;
        std::vector<node_base*> e;
        if (create)
        {
          ossia_node_create_pattern(n, path.c_str(), &d, &k);
          e = ossia::net::create_nodes(*w, path);
          changes++;
        }
        else
        {
          ossia_node_find_pattern(n, path.c_str(), &d, &k);
          e = ossia::net::find_nodes(*w, path);
        }
        std::vector<std::string> a, b;
        VF_CHECK(k == e.size() && (k || !d), "number of nodes for " + path + ": " + std::to_string(k));
        a = paths(d, k);
        for (auto z : e)
          b.push_back(osc_parameter_string(*z));
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        VF_CHECK(a == b, "nodes for " + path);
        ossia_node_array_free(d);
        break;
      }
      case 5:
      {
        auto name = SEG[c.draw(5)];
        NOTE("add child", at + " " + name);
        auto r = (node_base*)ossia_node_add_child(n, name);
        auto e = w->create_child(name);
        VF_CHECK(!r == !e && (!r || r->get_name() == e->get_name()), "ossia_node_add_child");
        changes++;
        break;
      }
      case 6:
        if (auto cp = n->get_parent(); cp && c.coin())
        {
          drain(x);
          NOTE("remove", at);
          x.forget(*w, false);
          ossia_node_remove_child(cp, n);
          w->get_parent()->remove_child(w->get_name());
          changes++;
        }
        break;
      case 7:
      case 8:
      {
        static const ossia_type T[] = {FLOAT_T, INT_T, VEC2F_T, VEC3F_T, VEC4F_T, IMPULSE_T, BOOL_T, STRING_T, LIST_T, CHAR_T};
        static const ossia::val_type TW[]
            = {ossia::val_type::FLOAT,   ossia::val_type::INT,  ossia::val_type::VEC2F,  ossia::val_type::VEC3F, ossia::val_type::VEC4F,
               ossia::val_type::IMPULSE, ossia::val_type::BOOL, ossia::val_type::STRING, ossia::val_type::LIST,  ossia::val_type::CHAR};
        static const char* const NAMES[] = {"int", "float", "rgb", "string", "position", "filepath", "nonsense", "bool"};
        changes++;
        if (c.chance(1, 3))
        {
          auto path = gen_path(c);
          auto t = NAMES[c.draw(8)];
          NOTE("create parameter", at + " " + path + " " + t);
          auto r = (parameter_base*)ossia_create_parameter(n, path.c_str(), t);
          auto e = ossia::create_parameter(*w, path, t);
          VF_CHECK(!r == !e && (!r || osc_parameter_string(*r) == osc_parameter_string(*e)), "ossia_create_parameter");
          break;
        }
        const int t = (int)c.draw(10);
        // the device has no parameter; an existing one is replaced only when nobody follows it
        if (!n->get_parent())
          break;
        drain(x);
        NOTE("create parameter", at + " type " + std::to_string(t));
        auto r = (parameter_base*)ossia_node_create_parameter(n, T[t]);
        if (!w->get_parameter())
          VF_CHECK(r, "no parameter is created");
        auto e = w->create_parameter(TW[t]);
        VF_CHECK(!r == !e, "ossia_node_create_parameter");
        break;
      }
      case 9:
        if (n->get_parameter() && c.chance(1, 3))
        {
          drain(x);
          NOTE("remove parameter", at);
          if (x.listening.count(w))
            break;
          x.forget(*w, true);
          ossia_node_remove_parameter(n);
          w->remove_parameter();
          changes++;
        }
        break;
      case 10:
        attribute(c, *n, *w);
        changes++;
        break;
      case 11:
        if (n->get_parameter())
          properties(c, x, *n, *n->get_parameter(), *w->get_parameter());
        break;
      case 12:
      case 13:
        if (n->get_parameter())
          push(c, *n->get_parameter(), *w->get_parameter());
        break;
      default:
        subscriptions(c, x, *n, *w);
    }
    x.logs("after an operation");
    drain(x);
    if (c.chance(1, 4))
      compare(x);
  }
  if (changes >= 4)
    c.nontrivial();
  compare(x);
  if (c.chance(1, 3))
  {
    VF_CHECK(ossia_device_update_namespace(x.dev) == 1, "ossia_device_update_namespace");
    x.twin->get_protocol().update(*x.twin);
    x.logs("update");
  }
  if (x.mq)
  {
    ossia_mq_free(x.mq);
    x.tq.reset();
    x.logs("end of the queue");
  }
  // the end of the device
  if (c.coin())
  {
    ossia_device_free(x.dev);
    x.twin->clear_children();
  }
  else
    ossia_device_reset_static();
  x.twin.reset();
  x.logs("end of the device");
  for (auto& v : x.vcs)
    ossia_parameter_free_callback_idx(v.ic);
  ossia_protocol_free(proto);
  VF_CHECK(ossia_device_create(nullptr, x.name.c_str()) == nullptr, "a freed device is found again");
}
