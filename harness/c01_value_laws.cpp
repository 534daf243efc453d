// C01: a value is a faithful container; comparisons and hashing obey their laws.
#include "gen_value.hpp"

#include <ossia/network/value/value_algorithms.hpp>
#include <ossia/network/value/value_hash.hpp>

#include <unordered_set>

using gv::MV;
const char* const vf::rule
    = "values of all 10 types (nested lists to depth 3, unset), histories of "
      "assignments over a pool of values, pairs made of a value and a small "
      "mutation of it; non-trivial: a history with at least 3 effective "
      "operations, or a pair not both scalars of one type";

static const gv::Opts OPT = [] {
  gv::Opts o;
  o.none = true;
  o.nested_none = true;
  return o;
}();

static ossia::value typed_assign(ossia::value& dst, const MV& m, vf::Case& c)
{
  // through the typed operator= of each alternative, lvalue and rvalue
  switch (m.t)
  {
    case MV::FLOAT:
      dst = m.f;
      break;
    case MV::INT:
      dst = m.i;
      break;
    case MV::VEC2:
      dst = std::array<float, 2>{m.v[0], m.v[1]};
      break;
    case MV::VEC3:
      dst = std::array<float, 3>{m.v[0], m.v[1], m.v[2]};
      break;
    case MV::VEC4:
      dst = m.v;
      break;
    case MV::IMPULSE:
      dst = ossia::impulse{};
      break;
    case MV::BOOL:
      dst = (bool)m.i;
      break;
    case MV::CHAR:
      dst = (char)m.i;
      break;
    case MV::STRING:
      if (c.coin())
        dst = m.s;
      else
      {
        std::string s = m.s;
        dst = std::move(s);
      }
      break;
    case MV::LIST:
    {
      auto l = gv::to_value(m).get<std::vector<ossia::value>>();
      if (c.coin())
        dst = l;
      else
        dst = std::move(l);
      break;
    }
    default:
      dst.reset();
  }
  return dst;
}

struct which_visitor
{
  int operator()(float) const { return MV::FLOAT; }
  int operator()(int32_t) const { return MV::INT; }
  int operator()(const std::array<float, 2>&) const { return MV::VEC2; }
  int operator()(const std::array<float, 3>&) const { return MV::VEC3; }
  int operator()(const std::array<float, 4>&) const { return MV::VEC4; }
  int operator()(ossia::impulse) const { return MV::IMPULSE; }
  int operator()(bool) const { return MV::BOOL; }
  int operator()(const std::string&) const { return MV::STRING; }
  int operator()(const std::vector<ossia::value>&) const { return MV::LIST; }
  int operator()(char) const { return MV::CHAR; }
  int operator()() const { return MV::NONE; }
};
struct which2
{
  template <typename A, typename B>
  std::pair<int, int> operator()(const A& a, const B& b) const
  {
    return {which_visitor{}(a), which_visitor{}(b)};
  }
};

VF_PROP(container_history, 300000, 6000000)
{
  constexpr int N = 4;
  ossia::value v[N];
  MV m[N];
  auto verify = [&](const char* what) {
    for (int i = 0; i < N; i++)
    {
      VF_CHECK(
          gv::matches(v[i], m[i]), "after " << what << ": slot " << i << " holds "
                                            << gv::show(v[i]) << ", expected "
                                            << gv::show(m[i]));
      VF_CHECK(
          v[i].apply(which_visitor{}) == (int)m[i].t,
          "visited alternative differs from " << gv::show(m[i]));
    }
  };
  int eff = 0;
  for (int step = 0; c.more(step, 24, 10); step++)
  {
    const int a = c.draw(N), b = c.draw(N);
    switch (c.draw(11))
    {
      case 0:
        m[a] = gv::gen(c, OPT);
        typed_assign(v[a], m[a], c);
        VF_NOTE("v" << a << " = typed " << gv::show(m[a]));
        eff++;
        break;
      case 1:
        m[a] = gv::gen(c, OPT);
        v[a] = gv::to_value(m[a]);
        VF_NOTE("v" << a << " = " << gv::show(m[a]));
        eff++;
        break;
      case 2:
        VF_NOTE("v" << a << " = v" << b);
        v[a] = v[b];
        m[a] = m[b];
        eff += a != b;
        break;
      case 3: // move: the source is then reassigned
      {
        VF_NOTE("v" << a << " = move v" << b);
        if (a == b)
          break;
        v[a] = std::move(v[b]);
        m[a] = m[b];
        VF_CHECK(gv::matches(v[a], m[a]), "moved value differs");
        v[b] = ossia::value{};
        m[b] = MV{};
        eff++;
        break;
      }
      case 4:
      {
        VF_NOTE("v" << a << " = copy constructed from v" << b);
        ossia::value t{v[b]};
        v[a] = t;
        m[a] = m[b];
        VF_CHECK(gv::matches(t, m[b]), "copy differs");
        break;
      }
      case 5:
        VF_NOTE("swap v" << a << " v" << b);
        std::swap(v[a], v[b]);
        std::swap(m[a], m[b]);
        break;
      case 6:
        VF_NOTE("self assign v" << a);
        {
          auto& r = v[a];
          v[a] = r;
        }
        break;
      case 7:
        VF_NOTE("reset v" << a);
        v[a].reset();
        m[a] = MV{};
        break;
      case 8: // in-place edit
        if (m[a].t == MV::LIST)
        {
          MV x = gv::gen(c, OPT, 1);
          VF_NOTE("v" << a << ".push_back " << gv::show(x));
          v[a].get<std::vector<ossia::value>>().push_back(gv::to_value(x));
          m[a].l.push_back(x);
          eff++;
        }
        else if (m[a].t == MV::STRING)
        {
          v[a].get<std::string>() += "zz";
          m[a].s += "zz";
          eff++;
        }
        else if (m[a].t == MV::VEC3)
        {
          v[a].get<std::array<float, 3>>()[2] = 7.f;
          m[a].v[2] = 7.f;
          eff++;
        }
        else if (m[a].t == MV::INT)
        {
          *v[a].target<int32_t>() = 12;
          m[a].i = 12;
        }
        break;
      case 9: // put a value inside a list holding itself
      {
        VF_NOTE("v" << a << " = [v" << a << ", v" << b << "]");
        if (m[a].t == MV::LIST && m[a].l.size() > 6)
          break;
        std::vector<ossia::value> l{v[a], v[b]};
        MV nm;
        nm.t = MV::LIST;
        nm.l = {m[a], m[b]};
        if (gv::show(nm).size() > 3000)
          break;
        v[a] = ossia::value{std::move(l)};
        m[a] = nm;
        eff++;
        break;
      }
      default: // growth of a vector of values (relocation by move)
      {
        std::vector<ossia::value> big;
        for (int k = 0; k < 9; k++)
          big.push_back(v[k % N]);
        for (int k = 0; k < 9; k++)
          VF_CHECK(gv::matches(big[k], m[k % N]), "value changed by relocation");
        big.erase(big.begin() + 2);
        VF_CHECK(gv::matches(big[2], m[3]), "value changed by erase");
        big.insert(big.begin(), v[a]);
        VF_CHECK(gv::matches(big[0], m[a]), "value changed by insert");
        break;
      }
    }
    verify("step");
    // asking for the wrong alternative fails cleanly
    if (m[a].t != MV::FLOAT)
    {
      VF_CHECK(v[a].target<float>() == nullptr, "target<float> on " << gv::show(m[a]));
      bool thrown = false;
      try
      {
        (void)v[a].get<float>();
      }
      catch (const std::exception&)
      {
        thrown = true;
      }
      VF_CHECK(thrown, "get<float> on " << gv::show(m[a]) << " did not throw");
    }
    if (m[a].t != MV::NONE && m[b].t != MV::NONE)
    {
      auto p = ossia::apply(which2{}, v[a].v, v[b].v);
      VF_CHECK(
          p.first == (int)m[a].t && p.second == (int)m[b].t,
          "binary visit reached the wrong alternatives");
    }
  }
  c.nontrivial(eff >= 3);
}

// ---- reference comparison -----------------------------------------------------
enum Cmp
{
  EQ,
  LT,
  LE,
  GT,
  GE
};
template <typename A, typename B>
static bool num(Cmp op, A a, B b)
{
  switch (op)
  {
    case EQ:
      return a == b;
    case LT:
      return a < b;
    case LE:
      return a <= b;
    case GT:
      return a > b;
    default:
      return a >= b;
  }
}
static bool is_num(const MV& m)
{
  return m.t == MV::INT || m.t == MV::FLOAT || m.t == MV::BOOL || m.t == MV::CHAR;
}
static bool ref_cmp(Cmp op, const MV& a, const MV& b)
{
  if (a.t == MV::NONE || b.t == MV::NONE)
    return a.t == b.t && (op == EQ || op == LE || op == GE);
  const bool vecs = (a.t >= MV::VEC2 && a.t <= MV::VEC4) || (b.t >= MV::VEC2 && b.t <= MV::VEC4);
  // an impulse is "equal" to anything but vectors
  if ((a.t == MV::IMPULSE || b.t == MV::IMPULSE) && !vecs)
    return op == EQ || op == LE || op == GE;
  if (a.t == MV::LIST && b.t == MV::LIST)
  {
    if (a.l.size() != b.l.size())
      return false;
    for (std::size_t i = 0; i < a.l.size(); i++)
      if (!ref_cmp(op, a.l[i], b.l[i]))
        return false;
    return true;
  }
  const bool avec = a.t == MV::VEC2 || a.t == MV::VEC3 || a.t == MV::VEC4;
  const bool bvec = b.t == MV::VEC2 || b.t == MV::VEC3 || b.t == MV::VEC4;
  if (avec || bvec)
  {
    if (a.t != b.t)
      return false;
    const int n = a.t == MV::VEC2 ? 2 : a.t == MV::VEC3 ? 3 : 4;
    for (int i = 0; i < n; i++)
      if (!num(op, a.v[i], b.v[i]))
        return false;
    return true;
  }
  // a one-element list compares as its element
  if (a.t == MV::LIST)
    return a.l.size() == 1 && a.l[0].t != MV::NONE && ref_cmp(op, a.l[0], b);
  if (b.t == MV::LIST)
    return b.l.size() == 1 && b.l[0].t != MV::NONE && ref_cmp(op, a, b.l[0]);
  if (a.t == MV::STRING && b.t == MV::STRING)
    return num(op, a.s.compare(b.s), 0);
  if (a.t == MV::STRING || b.t == MV::STRING)
    return false;
  auto with = [&](auto x) {
    switch (b.t)
    {
      case MV::FLOAT:
        return num(op, x, b.f);
      case MV::INT:
        return num(op, x, b.i);
      case MV::BOOL:
        return num(op, x, (bool)b.i);
      default:
        return num(op, x, (char)b.i);
    }
  };
  switch (a.t)
  {
    case MV::FLOAT:
      return with(a.f);
    case MV::INT:
      return with(a.i);
    case MV::BOOL:
      return with((bool)a.i);
    default:
      return with((char)a.i);
  }
}

static void gen_pair(vf::Case& c, MV& a, MV& b)
{
  a = gv::gen(c, OPT);
  if (c.chance(1, 3))
    b = gv::gen(c, OPT);
  else
    b = gv::mutate(c, a, OPT);
  if (c.chance(1, 12))
  {
    MV l;
    l.t = MV::LIST;
    l.l.push_back(b);
    b = l;
  }
  if (c.coin())
    std::swap(a, b);
}

VF_PROP(comparison_laws, 2000000, 40000000)
{
  MV a, b;
  gen_pair(c, a, b);
  VF_NOTE("a = " << gv::show(a) << "; b = " << gv::show(b));
  const ossia::value x = gv::to_value(a), y = gv::to_value(b);
  c.nontrivial(!(is_num(a) && a.t == b.t));
  const std::string d = gv::show(a) + " vs " + gv::show(b);
  // laws
  VF_CHECK(x == x, "not equal to itself: " << gv::show(a));
  VF_CHECK(!(x != x), "differs from itself: " << gv::show(a));
  // lists are ordered element-wise, so two empty lists are both < and >
  if (a.t != MV::LIST)
    VF_CHECK(!(x < x) && !(x > x), "ordered against itself: " << gv::show(a));
  VF_CHECK(x <= x && x >= x, "not <= itself: " << gv::show(a));
  VF_CHECK(x == ossia::value{x}, "copy not equal: " << gv::show(a));
  VF_CHECK((x == y) == (y == x), "equality not symmetric: " << d);
  VF_CHECK((x != y) == !(x == y), "!= is not the negation of ==: " << d);
  VF_CHECK((x < y) == (y > x), "< is not the converse of >: " << d);
  VF_CHECK((x <= y) == (y >= x), "<= is not the converse of >=: " << d);
  if (x < y)
    VF_CHECK(x <= y, "< without <=: " << d);
  if (x == y)
    VF_CHECK(x <= y && x >= y, "== without <= and >=: " << d);
  // against the reference
  VF_CHECK((x == y) == ref_cmp(EQ, a, b), "== disagrees with the reference: " << d);
  VF_CHECK((x < y) == ref_cmp(LT, a, b), "< disagrees with the reference: " << d);
  VF_CHECK((x <= y) == ref_cmp(LE, a, b), "<= disagrees with the reference: " << d);
  VF_CHECK((x > y) == ref_cmp(GT, a, b), "> disagrees with the reference: " << d);
  VF_CHECK((x >= y) == ref_cmp(GE, a, b), ">= disagrees with the reference: " << d);
  c.label(x == y, "equal");
  c.label(x < y, "less");
  c.label(a.t != b.t, "mixed types");
}

static bool same_shape_equal(const MV& a, const MV& b)
{
  if (a.t != b.t)
    return false;
  switch (a.t)
  {
    case MV::FLOAT:
      return a.f == b.f;
    case MV::INT:
    case MV::BOOL:
    case MV::CHAR:
      return a.i == b.i;
    case MV::STRING:
      return a.s == b.s;
    case MV::LIST:
      if (a.l.size() != b.l.size())
        return false;
      for (std::size_t i = 0; i < a.l.size(); i++)
        if (!same_shape_equal(a.l[i], b.l[i]))
          return false;
      return true;
    case MV::VEC2:
    case MV::VEC3:
    case MV::VEC4:
      return a.v == b.v;
    default:
      return true;
  }
}

VF_PROP(hash_agrees, 600000, 10000000)
{
  MV a, b;
  gen_pair(c, a, b);
  VF_NOTE("a = " << gv::show(a) << "; b = " << gv::show(b));
  std::hash<ossia::value> h;
  const ossia::value x = gv::to_value(a), y = gv::to_value(b);
  VF_CHECK(h(x) == h(gv::to_value(a)), "hash not a function of the value");
  // also after going through another content
  ossia::value z = y;
  z = x;
  VF_CHECK(h(x) == h(z), "hash depends on history: " << gv::show(a));
  if (same_shape_equal(a, b))
  {
    c.label("identical");
    VF_CHECK(
        h(x) == h(y), "equal values hash differently: " << gv::show(a) << " vs "
                                                        << gv::show(b));
  }
  std::unordered_set<ossia::value> set;
  set.insert(x);
  VF_CHECK(set.count(gv::to_value(a)) == 1, "lookup by equal value fails");
  c.nontrivial(a.t == MV::LIST || a.t == MV::STRING || a.t >= MV::VEC2);
}
