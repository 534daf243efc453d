// C02: converting a value to another type follows one fixed table.
#include "gen_value.hpp"

#include <ossia/network/value/value_algorithms.hpp>
#include <ossia/network/value/value_conversion.hpp>
#include <ossia/network/value/value_traits.hpp>
#include <ossia/network/value/value.hpp>

#include <fmt/format.h>

using gv::MV;
const char* const vf::rule
    = "a value of any type (nested lists, numeric and arbitrary text) and a target "
      "type; non-trivial: source and target types differ";

static const gv::Opts OPT = [] {
  gv::Opts o;
  o.none = true;
  o.nested_none = true;
  return o;
}();

// text that starts like a number
static std::string num_text(vf::Case& c)
{
  std::string s;
  switch (c.draw(4))
  {
    case 0:
      s = "-";
      break;
    case 1:
      s = c.coin() ? "+" : "";
      break;
    default:
      break;
  }
  auto digits = [&](int lo, int hi) {
    const int n = c.range(lo, hi);
    for (int i = 0; i < n; i++)
      s.push_back('0' + c.draw(10));
  };
  digits(c.chance(1, 8) ? 0 : 1, 9);
  if (c.coin())
  {
    s += '.';
    digits(0, 6);
  }
  if (c.chance(1, 4))
  {
    s += c.coin() ? 'e' : 'E';
    if (c.coin())
      s += c.coin() ? '-' : '+';
    digits(c.chance(1, 8) ? 0 : 1, 1);
  }
  if (c.chance(1, 4))
    s += c.str(3, " ax.-1,");
  if (c.chance(1, 10))
    s = " " + s;
  return s;
}

static MV gen(vf::Case& c, int depth = 0)
{
  if (c.chance(1, 5))
  {
    MV m;
    m.t = MV::STRING;
    m.s = num_text(c);
    return m;
  }
  if (depth < 2 && c.chance(1, 5))
  {
    MV m;
    m.t = MV::LIST;
    for (int n = 0; c.more(n, 6, 3); n++)
      m.l.push_back(gen(c, depth + 1));
    return m;
  }
  return gv::gen(c, OPT, depth);
}

// ---- reference ------------------------------------------------------------
struct Skip
{
};

static std::string match_real(const std::string& s)
{
  std::size_t i = 0;
  if (i < s.size() && (s[i] == '+' || s[i] == '-'))
    i++;
  std::size_t d = i;
  auto dig = [&](std::size_t p) { return p < s.size() && s[p] >= '0' && s[p] <= '9'; };
  while (dig(i))
    i++;
  bool ok = i > d;
  if (i < s.size() && s[i] == '.')
  {
    if (ok || dig(i + 1))
    {
      i++;
      while (dig(i))
        i++;
      ok = true;
    }
  }
  if (!ok)
    return "";
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
  {
    std::size_t j = i + 1;
    if (j < s.size() && (s[j] == '+' || s[j] == '-'))
      j++;
    if (dig(j))
    {
      while (dig(j))
        j++;
      i = j;
    }
  }
  return s.substr(0, i);
}
static std::string match_int(const std::string& s)
{
  std::size_t i = 0;
  if (i < s.size() && (s[i] == '+' || s[i] == '-'))
    i++;
  std::size_t d = i;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9')
    i++;
  return i > d ? s.substr(0, i) : "";
}

template <typename T>
static T from_float(float f)
{
  if constexpr (std::is_same_v<T, int>)
  {
    if (!(f > -2147483904.f && f < 2147483648.f))
      throw Skip{};
    return (int)std::trunc((double)f);
  }
  else if constexpr (std::is_same_v<T, char>)
  {
    if (!(f > -129.f && f < 128.f))
      throw Skip{};
    return (char)(int)std::trunc((double)f);
  }
  else if constexpr (std::is_same_v<T, bool>)
    return f != 0.f;
  else
    return (T)f;
}

template <typename T>
static T ref_num(const MV& m)
{
  switch (m.t)
  {
    case MV::INT:
    case MV::BOOL:
    case MV::CHAR:
      if constexpr (std::is_same_v<T, bool>)
        return m.i != 0;
      else
        return (T)m.i;
    case MV::FLOAT:
      return from_float<T>(m.f);
    case MV::VEC2:
    case MV::VEC3:
    case MV::VEC4:
      return from_float<T>(m.v[0]);
    case MV::LIST:
      return m.l.empty() ? T{} : ref_num<T>(m.l[0]);
    case MV::STRING:
    {
      if constexpr (std::is_same_v<T, int>)
      {
        auto t = match_int(m.s);
        if (t.empty())
          return 0;
        if (t.size() > 18)
          throw Skip{};
        long long v = atoll(t.c_str());
        if (v > 2147483647ll || v < -2147483648ll)
          throw Skip{};
        return (int)v;
      }
      else if constexpr (std::is_floating_point_v<T>)
      {
        if (m.s.size() && strchr("iInN", m.s[m.s[0] == '+' || m.s[0] == '-']))
          throw Skip{};
        auto t = match_real(m.s);
        return t.empty() ? T{} : (T)strtod(t.c_str(), nullptr);
      }
      else if constexpr (std::is_same_v<T, char>)
        return m.s.size() == 1 ? m.s[0] : T{};
      else // bool
      {
        // "1" is true, "0" is false, anything that is not a number is false
        if (m.s == "1")
          return true;
        for (char ch : m.s)
          if (ch >= '0' && ch <= '9')
          {
            if (m.s != "0")
              throw Skip{};
          }
        return false;
      }
    }
    default:
      return T{};
  }
}

static std::string ref_str(const MV& m, bool top)
{
  switch (m.t)
  {
    case MV::INT:
      return std::to_string(m.i);
    case MV::FLOAT:
      return fmt::format("{}", m.f);
    case MV::BOOL:
      return m.i ? "true" : "false";
    case MV::CHAR:
      return std::string(1, (char)m.i);
    case MV::STRING:
      return m.s;
    case MV::IMPULSE:
      return "impulse";
    case MV::VEC2:
    case MV::VEC3:
    case MV::VEC4:
    {
      const int n = m.t == MV::VEC2 ? 2 : m.t == MV::VEC3 ? 3 : 4;
      std::string s = "[";
      for (int i = 0; i < n; i++)
        s += (i ? ", " : "") + fmt::format("{}", m.v[i]);
      return s + "]";
    }
    case MV::LIST:
    {
      std::string s = "[";
      for (std::size_t i = 0; i < m.l.size(); i++)
        s += (i ? ", " : "") + ref_str(m.l[i], false);
      return s + "]";
    }
    default:
      return "";
  }
}

static MV ref_list(const MV& m)
{
  MV r;
  r.t = MV::LIST;
  switch (m.t)
  {
    case MV::NONE:
      return r;
    case MV::LIST:
      return m;
    case MV::VEC2:
    case MV::VEC3:
    case MV::VEC4:
    {
      const int n = m.t == MV::VEC2 ? 2 : m.t == MV::VEC3 ? 3 : 4;
      for (int i = 0; i < n; i++)
      {
        MV f;
        f.t = MV::FLOAT;
        f.f = m.v[i];
        r.l.push_back(f);
      }
      return r;
    }
    default:
      r.l.push_back(m);
      return r;
  }
}

static std::array<float, 4> ref_vec(const MV& m, int n, const std::array<float, 4>& cur)
{
  std::array<float, 4> r{};
  switch (m.t)
  {
    case MV::INT:
    case MV::BOOL:
    case MV::CHAR:
      for (int i = 0; i < n; i++)
        r[i] = (float)m.i;
      return r;
    case MV::FLOAT:
      for (int i = 0; i < n; i++)
        r[i] = m.f;
      return r;
    case MV::LIST:
      for (int i = 0; i < n && i < (int)m.l.size(); i++)
        r[i] = ref_num<float>(m.l[i]);
      return r;
    case MV::VEC2:
    case MV::VEC3:
    case MV::VEC4:
    {
      const int k = m.t == MV::VEC2 ? 2 : m.t == MV::VEC3 ? 3 : 4;
      r = cur;
      for (int i = 0; i < n && i < k; i++)
        r[i] = m.v[i];
      for (int i = n; i < 4; i++)
        r[i] = 0;
      return r;
    }
    default:
      return r;
  }
}

template <typename T>
static bool close(T a, T b)
{
  if (a == b)
    return true;
  const double eps = std::is_same_v<T, double> ? 1e-11 : 2e-6;
  return std::abs((double)a - (double)b) <= eps * std::max(std::abs((double)a), std::abs((double)b));
}

template <typename T>
static void check_num(const ossia::value& v, const MV& m, const char* what, vf::Case& c)
{
  T exp;
  try
  {
    exp = ref_num<T>(m);
  }
  catch (Skip)
  {
    c.excluded("number out of the target's range");
    return;
  }
  T got = ossia::convert<T>(v);
  const bool ok = std::is_floating_point_v<T> ? close<T>(got, exp) : got == exp;
  VF_CHECK(ok, what << " from " << gv::show(m) << " gives " << +got << ", expected " << +exp);
  got = ossia::convert<T>(T{}, v);
  VF_CHECK(
      (std::is_floating_point_v<T> ? close<T>(got, exp) : got == exp),
      what << " (with current value) from " << gv::show(m) << " gives " << +got);
}

template <std::size_t N>
static void check_vec(const ossia::value& v, const MV& m, vf::Case& c)
{
  std::array<float, N> cur;
  std::array<float, 4> mcur{};
  for (std::size_t i = 0; i < N; i++)
    mcur[i] = cur[i] = c.f32();
  try
  {
    auto e0 = ref_vec(m, N, {});
    auto e1 = ref_vec(m, N, mcur);
    auto g0 = ossia::convert<std::array<float, N>>(v);
    auto g1 = ossia::convert<std::array<float, N>>(cur, v);
    for (std::size_t i = 0; i < N; i++)
    {
      VF_CHECK(
          close(g0[i], e0[i]), "component " << i << " of " << N << " from " << gv::show(m)
                                            << " is " << g0[i] << ", expected " << e0[i]);
      VF_CHECK(
          close(g1[i], e1[i]), "component " << i << " of " << N << " (keeping the current) from "
                                            << gv::show(m) << " is " << g1[i] << ", expected "
                                            << e1[i]);
    }
    if (m.t == MV::LIST)
    {
      auto g2 = ossia::convert<std::array<float, N>>(
          v.get<std::vector<ossia::value>>());
      VF_CHECK(g2 == g0, "list overload differs on " << gv::show(m));
    }
  }
  catch (Skip)
  {
    c.excluded("number out of the target's range");
  }
}

VF_PROP(typed_conversion, 400000, 6000000)
{
  MV m = gen(c);
  const ossia::value v = gv::to_value(m);
  VF_NOTE("value " << gv::show(m));
  switch (c.draw(10))
  {
    case 0:
      check_num<int>(v, m, "int", c);
      c.nontrivial(m.t != MV::INT);
      break;
    case 1:
      check_num<float>(v, m, "float", c);
      c.nontrivial(m.t != MV::FLOAT);
      break;
    case 2:
      check_num<double>(v, m, "double", c);
      c.nontrivial();
      break;
    case 3:
      check_num<bool>(v, m, "bool", c);
      c.nontrivial(m.t != MV::BOOL);
      break;
    case 4:
      check_num<char>(v, m, "char", c);
      c.nontrivial(m.t != MV::CHAR);
      break;
    case 5:
    {
      auto got = ossia::convert<std::string>(v);
      auto exp = ref_str(m, true);
      VF_CHECK(got == exp, "text of " << gv::show(m) << " is '" << got << "', expected '" << exp << "'");
      c.nontrivial(m.t != MV::STRING);
      break;
    }
    case 6:
    {
      ossia::value got{ossia::convert<std::vector<ossia::value>>(v)};
      auto exp = ref_list(m);
      VF_CHECK(gv::matches(got, exp), "list of " << gv::show(m) << " is " << gv::show(got));
      c.nontrivial(m.t != MV::LIST);
      break;
    }
    case 7:
      check_vec<2>(v, m, c);
      c.nontrivial();
      break;
    case 8:
      check_vec<3>(v, m, c);
      c.nontrivial();
      break;
    default:
      check_vec<4>(v, m, c);
      c.nontrivial();
      break;
  }
}

// the run-time forms: by type tag, and "like this other value"
static bool approx(const ossia::value& x, const MV& m)
{
  if (m.t == MV::FLOAT)
    return x.target<float>() && close(*x.target<float>(), m.f);
  if (m.t == MV::VEC2 || m.t == MV::VEC3 || m.t == MV::VEC4)
  {
    auto r = gv::from_value(x);
    if (r.t != m.t)
      return false;
    for (int i = 0; i < 4; i++)
      if (!close(r.v[i], m.v[i]))
        return false;
    return true;
  }
  return gv::matches(x, m);
}

static MV ref_to(const MV& m, MV::T t, const std::array<float, 4>& cur = {})
{
  MV r;
  r.t = t;
  switch (t)
  {
    case MV::INT:
      r.i = ref_num<int>(m);
      break;
    case MV::FLOAT:
      r.f = ref_num<float>(m);
      break;
    case MV::BOOL:
      r.i = ref_num<bool>(m);
      break;
    case MV::CHAR:
      r.i = ref_num<char>(m);
      break;
    case MV::STRING:
      r.s = ref_str(m, true);
      break;
    case MV::LIST:
      return ref_list(m);
    case MV::VEC2:
      r.v = ref_vec(m, 2, cur);
      break;
    case MV::VEC3:
      r.v = ref_vec(m, 3, cur);
      break;
    case MV::VEC4:
      r.v = ref_vec(m, 4, cur);
      break;
    default:
      break;
  }
  return r;
}

VF_PROP(runtime_conversion, 300000, 4000000)
{
  MV m = gen(c);
  const ossia::value v = gv::to_value(m);
  MV like = gv::gen(c, OPT);
  c.nontrivial(like.t != m.t);
  VF_NOTE(gv::show(m) << " to the type of " << gv::show(like));
  try
  {
    auto exp = ref_to(m, like.t);
    auto got = ossia::convert(v, gv::vt(like.t));
    VF_CHECK(
        approx(got, exp), "by type: " << gv::show(m) << " -> " << gv::show(got)
                                      << ", expected " << gv::show(exp));
    auto exp2 = ref_to(m, like.t, like.v);
    auto got2 = ossia::convert(v, gv::to_value(like));
    VF_CHECK(
        approx(got2, exp2), "like a value: " << gv::show(m) << " -> " << gv::show(got2)
                                             << ", expected " << gv::show(exp2));
    // idempotent: converting again changes nothing
    auto again = ossia::convert(got, gv::vt(like.t));
    VF_CHECK(
        gv::matches(again, gv::from_value(got)),
        "second conversion changed " << gv::show(got) << " to " << gv::show(again));
  }
  catch (Skip)
  {
    c.excluded("number out of the target's range");
  }
}

VF_PROP(lossless_paths, 200000, 3000000)
{
  c.nontrivial();
  const int i = c.i32();
  VF_CHECK(
      ossia::convert<int>(ossia::value{ossia::convert<std::string>(ossia::value{i})}) == i,
      "int -> text -> int loses " << i);
  const float f = c.f32();
  VF_CHECK(
      close(ossia::convert<float>(ossia::value{ossia::convert<std::string>(ossia::value{f})}), f),
      "float -> text -> float loses " << f);
  const int k = (int)c.range(-(1 << 24), 1 << 24);
  VF_CHECK(
      ossia::convert<int>(ossia::value{ossia::convert<float>(ossia::value{k})}) == k,
      "int -> float -> int loses " << k);
  std::array<float, 3> a{c.f32(), c.f32(), c.f32()};
  VF_CHECK(
      (ossia::convert<std::array<float, 3>>(
           ossia::value{ossia::convert<std::vector<ossia::value>>(ossia::value{a})})
       == a),
      "vec3 -> list -> vec3 loses data");
  const char ch = (char)c.range(-128, 127);
  VF_CHECK(
      ossia::convert<char>(ossia::value{ossia::convert<int>(ossia::value{ch})}) == ch,
      "char -> int -> char loses " << (int)ch);
  if (ch)
    VF_CHECK(
        ossia::convert<char>(ossia::value{ossia::convert<std::string>(ossia::value{ch})}) == ch,
        "char -> text -> char loses " << (int)ch);
  VF_NOTE(i << " " << f << " " << k << " " << (int)ch);
}

VF_PROP(type_predicates, 60000, 300000)
{
  MV m = gv::gen(c, OPT);
  const ossia::value v = gv::to_value(m);
  const bool num = m.t == MV::INT || m.t == MV::FLOAT || m.t == MV::BOOL || m.t == MV::CHAR;
  const bool arr = m.t == MV::VEC2 || m.t == MV::VEC3 || m.t == MV::VEC4 || m.t == MV::LIST;
  VF_NOTE(gv::show(m));
  c.nontrivial(!num);
  VF_CHECK(ossia::is_array(v) == arr, "is_array on " << gv::show(m));
  VF_CHECK(ossia::is_numeric(v) == num, "is_numeric on " << gv::show(m));
}
