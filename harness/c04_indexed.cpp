// C04: reading and merging at an index path.
#include "gen_value.hpp"

#include <ossia/detail/destination_index.hpp>
#include <ossia/network/value/destination.hpp>
#include <ossia/network/value/value.hpp>
#include <ossia/network/value/value_algorithms.hpp>

using gv::MV;
const char* const vf::rule
    = "nested values, index paths of 0 to 4 steps (valid and past the end), histories "
      "of writes at paths; non-trivial: a path of two or more steps, or a merge of "
      "containers";

static const gv::Opts OPT = [] {
  gv::Opts o;
  o.none = true;
  o.nested_none = true;
  return o;
}();

static int vec_n(const MV& m)
{
  return m.t == MV::VEC2 ? 2 : m.t == MV::VEC3 ? 3 : m.t == MV::VEC4 ? 4 : 0;
}
static MV mf(float f)
{
  MV m;
  m.t = MV::FLOAT;
  m.f = f;
  return m;
}

static MV ref_get(const MV& m, const std::vector<int>& idx, std::size_t k = 0)
{
  if (k == idx.size())
    return m;
  if (m.t == MV::LIST)
    return idx[k] < (int)m.l.size() ? ref_get(m.l[idx[k]], idx, k + 1) : MV{};
  if (int n = vec_n(m))
    return idx[k] < n && k + 1 == idx.size() ? mf(m.v[idx[k]]) : MV{};
  return MV{};
}

static bool is_num(const MV& m, float& f)
{
  switch (m.t)
  {
    case MV::FLOAT:
      f = m.f;
      return true;
    case MV::INT:
    case MV::BOOL:
    case MV::CHAR:
      f = (float)m.i;
      return true;
    default:
      return false;
  }
}

// what putting src on top of dst gives
static void ref_merge(MV& dst, const MV& src)
{
  const int dn = vec_n(dst), sn = vec_n(src);
  if (dst.t == MV::NONE)
    dst = src;
  else if (src.t == MV::LIST && dst.t == MV::LIST)
  {
    if (dst.l.size() < src.l.size())
      dst.l.resize(src.l.size());
    for (std::size_t i = 0; i < src.l.size(); i++)
      ref_merge(dst.l[i], src.l[i]);
  }
  else if (src.t == MV::LIST && dn)
  {
    for (int i = 0; i < dn && i < (int)src.l.size(); i++)
      is_num(src.l[i], dst.v[i]);
  }
  else if (sn && dst.t == MV::LIST)
  {
    if ((int)dst.l.size() < sn)
      dst.l.resize(sn);
    for (int i = 0; i < sn; i++)
      dst.l[i] = mf(src.v[i]);
  }
  else if (sn && dn)
  {
    for (int i = 0; i < dn && i < sn; i++)
      dst.v[i] = src.v[i];
  }
  else if (src.t == MV::LIST || sn)
    ; // a container does not replace a scalar
  else if (dst.t == MV::LIST)
  {
    if (dst.l.empty())
      dst.l.push_back(src);
    else
      ref_merge(dst.l[0], src);
  }
  else if (src.t == MV::NONE)
    ;
  else if (dn)
    is_num(src, dst.v[0]);
  else
    dst = src;
}

static std::vector<int> gen_path(vf::Case& c, const MV& m)
{
  std::vector<int> p;
  const MV* cur = &m;
  while (c.more(p.size(), 4, 3))
  {
    int n = cur ? (cur->t == MV::LIST ? (int)cur->l.size() : vec_n(*cur)) : 0;
    int i = (int)c.range(0, c.chance(1, 4) ? n + 2 : std::max(0, n - 1));
    p.push_back(i);
    cur = cur && cur->t == MV::LIST && i < n ? &cur->l[i] : nullptr;
  }
  return p;
}
static std::string showp(const std::vector<int>& p)
{
  std::string s = "[";
  for (int i : p)
    s += std::to_string(i) + " ";
  return s + "]";
}

VF_PROP(read_at_path, 300000, 5000000)
{
  MV m = gv::gen(c, OPT);
  if (c.coin())
  {
    MV l;
    l.t = MV::LIST;
    for (int n = 0; c.more(n, 5, 3); n++)
      l.l.push_back(gv::gen(c, OPT, 1));
    m = l;
  }
  auto p = gen_path(c, m);
  ossia::destination_index idx(p.begin(), p.end());
  VF_NOTE(gv::show(m) << " at " << showp(p));
  auto got = ossia::get_value_at_index(gv::to_value(m), idx);
  auto exp = ref_get(m, p);
  c.nontrivial(p.size() >= 2);
  c.label(exp.t != MV::NONE, "found");
  VF_CHECK(
      gv::matches(got, exp), gv::show(m) << " at " << showp(p) << " is " << gv::show(got)
                                         << ", expected " << gv::show(exp));
}

VF_PROP(merge, 300000, 5000000)
{
  MV a = gv::gen(c, OPT), b = c.coin() ? gv::mutate(c, a, OPT) : gv::gen(c, OPT);
  VF_NOTE(gv::show(a) << " <- " << gv::show(b));
  MV exp = a;
  ref_merge(exp, b);
  ossia::value x = gv::to_value(a);
  const ossia::value y = gv::to_value(b);
  ossia::value_merger<true>::merge_value(x, y);
  VF_CHECK(
      gv::matches(x, exp), gv::show(a) << " <- " << gv::show(b) << " gives " << gv::show(x)
                                       << ", expected " << gv::show(exp));
  VF_CHECK(gv::matches(y, b), "the source changed");
  ossia::value x2 = gv::to_value(a);
  ossia::value_merger<true>::merge_value(x2, ossia::value{y});
  VF_CHECK(gv::matches(x2, exp), "merging a temporary differs: " << gv::show(x2));
  // merging the same thing twice changes nothing more
  if (b.t != MV::NONE)
  {
    ossia::value_merger<true>::merge_value(x, y);
    MV e2 = exp;
    ref_merge(e2, b);
    VF_CHECK(gv::matches(x, e2), "second merge differs");
  }
  c.nontrivial(
      (a.t == MV::LIST || vec_n(a)) && (b.t == MV::LIST || vec_n(b)) && a.t != MV::NONE);
}

// without precedence, an existing plain value is never replaced
VF_PROP(merge_keeps, 100000, 1000000)
{
  gv::Opts o = OPT;
  o.lists = false;
  MV a = gv::gen(c, o), b = gv::gen(c, o);
  if (vec_n(a) || vec_n(b))
    return;
  ossia::value x = gv::to_value(a);
  ossia::value_merger<false>::merge_value(x, gv::to_value(b));
  const MV& e = a.t == MV::NONE ? b : a;
  c.nontrivial(a.t != MV::NONE && b.t != MV::NONE);
  VF_NOTE(gv::show(a) << " <- " << gv::show(b));
  VF_CHECK(gv::matches(x, e), "kept " << gv::show(x) << ", expected " << gv::show(e));
}

static void ref_insert(MV& m, const std::vector<int>& p, const MV& v, std::size_t k = 0)
{
  // m is a list
  if ((int)m.l.size() <= p[k])
    m.l.resize(p[k] + 1);
  MV& cur = m.l[p[k]];
  if (k + 1 == p.size())
  {
    ref_merge(cur, v);
    return;
  }
  if (cur.t != MV::LIST)
  {
    MV l;
    l.t = MV::LIST;
    l.l.push_back(cur);
    cur = l;
  }
  ref_insert(cur, p, v, k + 1);
}

VF_PROP(writes_at_paths, 60000, 1000000)
{
  MV m;
  m.t = MV::LIST;
  std::vector<ossia::value> l;
  int deep = 0;
  for (int n = 0; c.more(n, 10, 5); n++)
  {
    std::vector<int> p;
    do
      p.push_back((int)c.range(0, 3));
    while (c.more(p.size(), 4, 2));
    deep += p.size() > 1;
    gv::Opts o;
    o.maxdepth = 2;
    MV v = gv::gen(c, o, 1);
    VF_NOTE("write " << gv::show(v) << " at " << showp(p));
    ref_insert(m, p, v);
    ossia::destination_index idx(p.begin(), p.end());
    if (c.coin())
      ossia::value_merger<true>::insert_in_list(l, gv::to_value(v), idx);
    else
    {
      const auto x = gv::to_value(v);
      ossia::value_merger<true>::insert_in_list(l, x, idx);
    }
    VF_CHECK(
        gv::matches(ossia::value{l}, m), "after writing " << gv::show(v) << " at " << showp(p)
                                             << ": " << gv::show(ossia::value{l})
                                             << ", expected " << gv::show(m));
    // what a read at that path then finds
    auto got = ossia::get_value_at_index(ossia::value{l}, idx);
    VF_CHECK(
        gv::matches(got, ref_get(m, p)), "read back " << gv::show(got) << " at " << showp(p));
  }
  c.nontrivial(deep > 0);
}
