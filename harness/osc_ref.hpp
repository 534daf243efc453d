// Independent OSC codec and model of what each OSC flavour sends and of what a parameter takes from a message.
#pragma once
#include "gen_value.hpp"

#include <deque>

namespace ref
{
using gv::MV;
struct Arg
{
  char tag{'N'};
  int32_t i{};   // i c
  float f{};     // f
  int64_t h{};   // h
  double d{};    // d
  uint64_t t{};  // t
  uint32_t r{};  // r m
  std::string s; // s S b
};
using Args = std::vector<Arg>; // flat: '[' and ']' are arguments

inline Arg I(int32_t i) { Arg a; a.tag = 'i'; a.i = i; return a; }
inline Arg C(char i) { Arg a; a.tag = 'c'; a.i = i; return a; }
inline Arg F(float f) { Arg a; a.tag = 'f'; a.f = f; return a; }
inline Arg S(std::string s) { Arg a; a.tag = 's'; a.s = std::move(s); return a; }
inline Arg B(std::string s) { Arg a; a.tag = 'b'; a.s = std::move(s); return a; }
inline Arg R(uint32_t r) { Arg a; a.tag = 'r'; a.r = r; return a; }
inline Arg T(char t) { Arg a; a.tag = t; return a; }

inline void be32(std::string& o, uint32_t v)
{
  for (int k = 24; k >= 0; k -= 8)
    o += (char)(v >> k);
}
inline void be64(std::string& o, uint64_t v)
{
  be32(o, (uint32_t)(v >> 32));
  be32(o, (uint32_t)v);
}
inline void pad(std::string& o)
{
  while (o.size() % 4)
    o += '\0';
}
inline std::string text(const std::string& s)
{
  std::string o = s + '\0';
  pad(o);
  return o;
}
inline std::string message(const std::string& addr, const Args& args)
{
  std::string tags = ",", data;
  for (auto& a : args)
  {
    tags += a.tag;
    switch (a.tag)
    {
      case 'i':
      case 'c':
        be32(data, (uint32_t)a.i);
        break;
      case 'f':
      {
        uint32_t u;
        std::memcpy(&u, &a.f, 4);
        be32(data, u);
        break;
      }
      case 'h':
        be64(data, (uint64_t)a.h);
        break;
      case 't':
        be64(data, a.t);
        break;
      case 'd':
      {
        uint64_t u;
        std::memcpy(&u, &a.d, 8);
        be64(data, u);
        break;
      }
      case 'r':
      case 'm':
        be32(data, a.r);
        break;
      case 's':
      case 'S':
        data += text(a.s);
        break;
      case 'b':
      {
        be32(data, (uint32_t)a.s.size());
        data += a.s;
        pad(data);
        break;
      }
      default:
        break;
    }
  }
  return text(addr) + text(tags) + data;
}
inline std::string bundle(const std::vector<std::string>& elements, uint64_t time = 1)
{
  std::string o("#bundle\0", 8);
  be64(o, time);
  for (auto& e : elements)
  {
    be32(o, (uint32_t)e.size());
    o += e;
  }
  return o;
}

enum flavour
{
  V10,
  V11,
  EXT
};

// what is sent for a value inside of a list or of a bundle
inline void put(Args& o, flavour fl, const MV& m, bool rgba, int depth)
{
  auto vec = [&](int n) {
    const bool arr = fl == EXT && depth > 0;
    if (arr)
      o.push_back(T('['));
    for (int k = 0; k < n; k++)
      o.push_back(F(m.v[k]));
    if (arr)
      o.push_back(T(']'));
  };
  switch (m.t)
  {
    case MV::IMPULSE:
      o.push_back(fl == V10 ? I(0) : T('I'));
      break;
    case MV::BOOL:
      o.push_back(fl == V10 ? I(m.i ? 1 : 0) : T(m.i ? 'T' : 'F'));
      break;
    case MV::CHAR:
      o.push_back(fl == EXT ? C((char)m.i) : I(m.i));
      break;
    case MV::INT:
      o.push_back(I(m.i));
      break;
    case MV::FLOAT:
      o.push_back(F(m.f));
      break;
    case MV::STRING:
      o.push_back(S(m.s));
      break;
    case MV::VEC2:
      vec(2);
      break;
    case MV::VEC3:
      vec(3);
      break;
    case MV::VEC4:
      if (fl == EXT && rgba)
      {
        uint32_t r = 0;
        for (int k = 0; k < 4; k++)
          r = r * 256 + (uint32_t)m.v[k];
        o.push_back(R(r));
      }
      else
        vec(4);
      break;
    case MV::LIST:
    {
      const bool arr = fl == EXT && depth > 0;
      if (arr)
        o.push_back(T('['));
      for (auto& x : m.l)
        put(o, fl, x, rgba, depth + 1);
      if (arr)
        o.push_back(T(']'));
      break;
    }
    default:
      break;
  }
}
// what is sent for a value on its own
inline Args sent(flavour fl, const MV& m, bool rgba = false, bool blob = false)
{
  Args o;
  if (m.t == MV::IMPULSE && fl == V10)
    return o;
  if (m.t == MV::STRING && blob)
    o.push_back(B(m.s));
  else
    put(o, fl, m, rgba, 0);
  return o;
}

// ---- what is understood of a message
inline MV mv(MV::T t) { MV m; m.t = t; return m; }
inline MV color(uint32_t r)
{
  MV m = mv(MV::VEC4);
  for (int k = 0; k < 4; k++)
    m.v[k] = (float)((r >> (24 - 8 * k)) & 255);
  return m;
}
// strings are generated so that they are either canonical numbers or not numbers at all
inline bool number(const std::string& s, double& d)
{
  if (s.empty() || !(std::isdigit((unsigned char)s.back())))
    return false;
  char* e{};
  d = std::strtod(s.c_str(), &e);
  return *e == 0;
}
inline float as_float(const Arg& a, float cur)
{
  double d;
  switch (a.tag)
  {
    case 'i':
      return (float)a.i;
    case 'h':
      return (float)a.h;
    case 'f':
      return a.f;
    case 'd':
      return (float)a.d;
    case 't':
      return (float)a.t;
    case 'c':
      return (float)(char)a.i;
    case 'T':
      return 1.f;
    case 'F':
      return 0.f;
    case 's':
    case 'S':
      return number(a.s, d) ? (float)d : cur;
    default:
      return cur;
  }
}
inline int as_int(const Arg& a, int cur)
{
  double d;
  switch (a.tag)
  {
    case 'i':
      return a.i;
    case 'h':
      return (int32_t)a.h;
    case 'f':
      return (int32_t)a.f;
    case 'd':
      return (int32_t)a.d;
    case 't':
      return (int32_t)a.t;
    case 'c':
      return (char)a.i;
    case 'T':
      return 1;
    case 'F':
      return 0;
    case 's':
    case 'S':
      return number(a.s, d) && a.s.find('.') == a.s.npos ? (int)d : cur;
    default:
      return cur;
  }
}
inline bool as_bool(const Arg& a, bool cur)
{
  switch (a.tag)
  {
    case 'i':
      return a.i != 0;
    case 'h':
      return a.h != 0;
    case 'f':
      return a.f != 0;
    case 'd':
      return a.d != 0;
    case 't':
      return a.t != 0;
    case 'c':
      return (char)a.i != 0;
    case 'T':
      return true;
    case 'F':
      return false;
    case 's':
    case 'S':
      return a.s == "1" ? true : a.s == "0" ? false : cur;
    default:
      return cur;
  }
}
inline char as_char(const Arg& a, char cur)
{
  switch (a.tag)
  {
    case 'i':
      return (char)a.i;
    case 'h':
      return (char)a.h;
    case 'f':
      return (char)a.f;
    case 'd':
      return (char)a.d;
    case 't':
      return (char)a.t;
    case 'c':
      return (char)a.i;
    case 'T':
      return 'T';
    case 'F':
      return 'F';
    case 's':
    case 'S':
      return a.s.empty() ? '\0' : a.s[0];
    default:
      return cur;
  }
}
inline std::string as_string(const Arg& a, const std::string& cur)
{
  char b[64];
  switch (a.tag)
  {
    case 'i':
      return std::to_string(a.i);
    case 'h':
      return std::to_string(a.h);
    case 'f':
      std::snprintf(b, sizeof b, "%.9g", a.f);
      return b;
    case 'd':
      std::snprintf(b, sizeof b, "%.17g", a.d);
      return b;
    case 'c':
      return std::string(1, (char)a.i);
    case 'T':
      return "true";
    case 'F':
      return "false";
    case 's':
    case 'S':
    case 'b':
      return a.s;
    default:
      return cur;
  }
}
// the value of an argument on its own
inline MV as_any(const Arg& a)
{
  MV m;
  switch (a.tag)
  {
    case 'i':
    case 'h':
    case 't':
      m = mv(MV::INT);
      m.i = a.tag == 'i' ? a.i : a.tag == 'h' ? (int32_t)a.h : (int32_t)a.t;
      return m;
    case 'f':
    case 'd':
      m = mv(MV::FLOAT);
      m.f = a.tag == 'f' ? a.f : (float)a.d;
      return m;
    case 'c':
      m = mv(MV::CHAR);
      m.i = (char)a.i;
      return m;
    case 'T':
    case 'F':
      m = mv(MV::BOOL);
      m.i = a.tag == 'T';
      return m;
    case 's':
    case 'S':
    case 'b':
      m = mv(MV::STRING);
      m.s = a.s;
      return m;
    case 'r':
      return color(a.r);
    default:
      return mv(MV::IMPULSE);
  }
}
inline MV as_list(const Args& a, std::size_t& i)
{
  MV m = mv(MV::LIST);
  for (; i < a.size(); i++)
  {
    if (a[i].tag == '[')
    {
      i++;
      m.l.push_back(as_list(a, i));
    }
    else if (a[i].tag == ']')
      return m;
    else
      m.l.push_back(as_any(a[i]));
  }
  return m;
}
inline MV as_list(const Args& a)
{
  std::size_t i = 0;
  return as_list(a, i);
}
// the value a parameter holding cur takes
inline MV taken(const MV& cur, const Args& a)
{
  MV m = cur;
  if (a.empty())
    return m;
  auto& x = a.front();
  auto vec = [&](std::size_t n) {
    if (a.size() == n)
    {
      for (std::size_t k = 0; k < n; k++)
        m.v[k] = as_float(a[k], cur.v[k]);
    }
    else if (n == 4 && x.tag == 'r')
      m = color(x.r);
  };
  switch (cur.t)
  {
    case MV::FLOAT:
      m.f = as_float(x, cur.f);
      break;
    case MV::INT:
      m.i = as_int(x, cur.i);
      break;
    case MV::BOOL:
      m.i = as_bool(x, cur.i);
      break;
    case MV::CHAR:
      m.i = as_char(x, (char)cur.i);
      break;
    case MV::STRING:
      m.s = as_string(x, cur.s);
      break;
    case MV::VEC2:
      vec(2);
      break;
    case MV::VEC3:
      vec(3);
      break;
    case MV::VEC4:
      vec(4);
      break;
    case MV::LIST:
      m = as_list(a);
      break;
    default:
      break;
  }
  return m;
}
// the value of a message nothing is known about
inline MV anything(const Args& a)
{
  if (a.empty())
    return mv(MV::IMPULSE);
  if (a.size() == 1)
    return as_any(a[0]);
  return as_list(a);
}

inline std::string show(const Args& a)
{
  std::string r;
  for (auto& x : a)
  {
    r += x.tag;
    switch (x.tag)
    {
      case 'i':
      case 'c':
        r += std::to_string(x.i);
        break;
      case 'f':
        r += std::to_string(x.f);
        break;
      case 'd':
        r += std::to_string(x.d);
        break;
      case 'h':
        r += std::to_string(x.h);
        break;
      case 't':
        r += std::to_string(x.t);
        break;
      case 'r':
      case 'm':
        r += std::to_string(x.r);
        break;
      case 's':
      case 'S':
      case 'b':
        r += '"' + x.s.substr(0, 60) + '"';
        break;
      default:
        break;
    }
    r += ' ';
  }
  return r;
}
inline std::string hex(const std::string& s)
{
  std::string r;
  for (unsigned char c : s.substr(0, 200))
  {
    if (c >= 33 && c < 127)
      r += c;
    else
    {
      char b[8];
      std::snprintf(b, sizeof b, "\\%02x", c);
      r += b;
    }
  }
  return r;
}

// ---- generators
inline std::string gen_text(vf::Case& c)
{
  switch (c.draw(4))
  {
    case 0:
      return std::to_string(c.range(-99, 99));
    case 1:
    {
      static const char* n[] = {"0", "1", "2.5", "-0.25", "100", "12345", "0.125", "-7"};
      return n[c.draw(8)];
    }
    default:
    {
      static const char al[] = "abxyz /é_";
      auto s = c.str(20, al);
      while (!s.empty() && std::isdigit((unsigned char)s.back()))
        s.pop_back();
      return s;
    }
  }
}
inline Arg gen_arg(vf::Case& c)
{
  Arg a;
  static const char tags[] = "iffhdtcTFsSbrNIm";
  a.tag = tags[c.draw(sizeof tags - 1)];
  auto small = [&] { return (double)c.range(-100000, 100000) / (double)(1 << c.draw(8)); };
  switch (a.tag)
  {
    case 'i':
      a.i = c.i32();
      break;
    case 'c':
      a.i = (int)c.range(-128, 127);
      break;
    case 'f':
      a.f = (float)small();
      break;
    case 'd':
      a.d = small();
      break;
    case 'h':
      a.h = c.coin() ? (int64_t)c.i32() : (int64_t)c.draw(0);
      break;
    case 't':
      a.t = c.coin() ? c.draw(1000) : c.draw(0);
      break;
    case 'r':
    case 'm':
      a.r = (uint32_t)c.draw(0);
      break;
    case 's':
    case 'S':
      a.s = gen_text(c);
      break;
    case 'b':
      a.s = c.bytes(c.draw(20));
      break;
    default:
      break;
  }
  return a;
}
inline void gen_args(vf::Case& c, Args& o, int depth, int max)
{
  for (std::size_t n = 0; c.more(n, max, 3); n++)
  {
    if (depth < 3 && c.chance(1, 6))
    {
      o.push_back(T('['));
      gen_args(c, o, depth + 1, 4);
      o.push_back(T(']'));
    }
    else
      o.push_back(gen_arg(c));
  }
}
// arguments that suit a parameter of the type of cur, or any arguments
inline Args gen_args_for(vf::Case& c, const MV& cur)
{
  Args o;
  auto n = [&](int k) {
    for (int i = 0; i < k; i++)
      o.push_back(c.chance(1, 3) ? gen_arg(c) : F((float)c.range(-50, 50) / 4));
  };
  if (c.chance(1, 3))
    gen_args(c, o, 0, 6);
  else
    switch (cur.t)
    {
      case MV::VEC2:
        n(2);
        break;
      case MV::VEC3:
        n(3);
        break;
      case MV::VEC4:
        if (c.coin())
          o.push_back(R((uint32_t)c.draw(0)));
        else
          n(4);
        break;
      case MV::LIST:
        gen_args(c, o, 0, 8);
        break;
      default:
        o.push_back(gen_arg(c));
        if (c.chance(1, 5))
          gen_args(c, o, 0, 3);
        break;
    }
  return o;
}
}
