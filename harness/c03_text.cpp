// C03: the textual form of a value reads back as the same value.
#include "gen_value.hpp"

#include <ossia/network/value/value.hpp>

using gv::MV;
const char* const vf::rule
    = "values of all types, nested lists to depth 3, arbitrary text with quotes, "
      "backslashes, blanks, brackets; non-trivial: text, a list or a vector";

static bool approx(float a, float b)
{
  return a == b || std::abs(a - b) <= 3e-6f * std::max(std::abs(a), std::abs(b));
}
static bool same(const MV& a, const MV& b)
{
  if (a.t != b.t)
    return false;
  switch (a.t)
  {
    case MV::FLOAT:
      return approx(a.f, b.f);
    case MV::VEC2:
    case MV::VEC3:
    case MV::VEC4:
      for (int i = 0; i < 4; i++)
        if (!approx(a.v[i], b.v[i]))
          return false;
      return true;
    case MV::LIST:
      if (a.l.size() != b.l.size())
        return false;
      for (std::size_t i = 0; i < a.l.size(); i++)
        if (!same(a.l[i], b.l[i]))
          return false;
      return true;
    case MV::STRING:
      return a.s == b.s;
    case MV::IMPULSE:
      return true;
    case MV::BOOL:
      return (bool)a.i == (bool)b.i;
    default:
      return a.i == b.i;
  }
}

static const gv::Opts OPT = [] {
  gv::Opts o;
  o.alphabet = "ab \"'\\,[]:/{}x01\t~\n";
  return o;
}();

static bool has_char(const MV& m, int ch)
{
  if (m.t == MV::CHAR)
    return m.i == ch;
  for (auto& x : m.l)
    if (has_char(x, ch))
      return true;
  return false;
}

VF_PROP(round_trip, 150000, 3000000)
{
  MV m = gv::gen(c, OPT);
  VF_NOTE(gv::show(m));
  const ossia::value v = gv::to_value(m);
  const std::string txt = ossia::value_to_pretty_string(v);
  const ossia::value back = ossia::parse_pretty_value(txt);
  c.nontrivial(m.t == MV::STRING || m.t == MV::LIST || (m.t >= MV::VEC2 && m.t <= MV::VEC4));
  VF_CHECK(
      same(gv::from_value(back), m),
      "text <" << txt << "> reads back as " << gv::show(back) << ", was " << gv::show(m));
  VF_CHECK(
      ossia::value_to_pretty_string(back) == txt || m.t == MV::FLOAT || m.t == MV::LIST
          || (m.t >= MV::VEC2 && m.t <= MV::VEC4),
      "printing again differs: <" << txt << ">");
  c.label(m.t == MV::LIST && m.l.size() > 1, "list with several elements");
  c.label(m.t == MV::STRING && m.s.find('"') != std::string::npos, "text with a quote");
}

// the text of a list is made of the texts of its elements; types are named
VF_PROP(shape, 60000, 600000)
{
  MV m = gv::gen(c, OPT);
  const std::string txt = ossia::value_to_pretty_string(gv::to_value(m));
  VF_NOTE(txt);
  c.nontrivial(m.t == MV::LIST);
  static const char* const prefix[]
      = {"float: ", "int: ", "vec2f: [", "vec3f: [", "vec4f: [", "impulse",
         "bool: ",  "string: \"", "list: [", "char: '"};
  VF_CHECK(txt.rfind(prefix[m.t], 0) == 0, gv::show(m) << " prints as " << txt);
  if (m.t == MV::LIST)
  {
    std::string exp = "list: [";
    for (std::size_t i = 0; i < m.l.size(); i++)
      exp += (i ? ", " : "") + ossia::value_to_pretty_string(gv::to_value(m.l[i]));
    exp += "]";
    VF_CHECK(txt == exp, "list prints as " << txt << ", expected " << exp);
  }
}

// any text at all is read or refused, without crash, and what was read is
// stable under print + read
VF_PROP(arbitrary_text, 60000, 1500000)
{
  std::string s;
  if (c.coin())
  {
    s = ossia::value_to_pretty_string(gv::to_value(gv::gen(c, OPT)));
    const int n = c.range(1, 3);
    for (int i = 0; i < n && !s.empty(); i++)
    {
      auto p = c.draw(s.size());
      switch (c.draw(3))
      {
        case 0:
          s.erase(p, 1 + c.draw(3));
          break;
        case 1:
          s.insert(p, 1, "\"'\\,[] :0f"[c.draw(10)]);
          break;
        default:
          s.resize(p);
      }
    }
  }
  else
    s = c.str(40, "floatin: []\"'12.e,-bsgruepvc\\");
  VF_NOTE("<" << s << ">");
  c.nontrivial(s.size() > 4);
  ossia::value v = ossia::parse_pretty_value(s);
  if (!v.valid())
    return;
  c.label("read");
  MV m = gv::from_value(v);
  std::function<bool(const MV&)> finite = [&](const MV& x) {
    if (x.t == MV::FLOAT && !std::isfinite(x.f))
      return false;
    for (float f : x.v)
      if (!std::isfinite(f))
        return false;
    for (auto& y : x.l)
      if (y.t == MV::NONE || !finite(y))
        return false;
    return true;
  };
  if (!finite(m))
    return;
  auto again = ossia::parse_pretty_value(ossia::value_to_pretty_string(v));
  VF_CHECK(
      same(gv::from_value(again), m),
      "<" << s << "> reads as " << gv::show(v) << " then " << gv::show(again));
}
