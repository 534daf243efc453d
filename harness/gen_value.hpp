// Generators for ossia::value and an independent model of it.
#pragma once
#include "vf.hpp"

#include <ossia/network/value/value.hpp>

#include <array>
#include <iomanip>

namespace gv
{
// Independent model of a value: plain data, compared field by field.
struct MV
{
  enum T
  {
    FLOAT = 0,
    INT,
    VEC2,
    VEC3,
    VEC4,
    IMPULSE,
    BOOL,
    STRING,
    LIST,
    CHAR,
    NONE
  } t{NONE};
  float f{};
  int i{}; // INT, BOOL, CHAR
  std::array<float, 4> v{};
  std::string s;
  std::vector<MV> l;
};

inline ossia::val_type vt(MV::T t)
{
  switch (t)
  {
    case MV::FLOAT:
      return ossia::val_type::FLOAT;
    case MV::INT:
      return ossia::val_type::INT;
    case MV::VEC2:
      return ossia::val_type::VEC2F;
    case MV::VEC3:
      return ossia::val_type::VEC3F;
    case MV::VEC4:
      return ossia::val_type::VEC4F;
    case MV::IMPULSE:
      return ossia::val_type::IMPULSE;
    case MV::BOOL:
      return ossia::val_type::BOOL;
    case MV::STRING:
      return ossia::val_type::STRING;
    case MV::LIST:
      return ossia::val_type::LIST;
    case MV::CHAR:
      return ossia::val_type::CHAR;
    default:
      return ossia::val_type::NONE;
  }
}

inline ossia::value to_value(const MV& m)
{
  switch (m.t)
  {
    case MV::FLOAT:
      return ossia::value{m.f};
    case MV::INT:
      return ossia::value{m.i};
    case MV::VEC2:
      return ossia::value{std::array<float, 2>{m.v[0], m.v[1]}};
    case MV::VEC3:
      return ossia::value{std::array<float, 3>{m.v[0], m.v[1], m.v[2]}};
    case MV::VEC4:
      return ossia::value{m.v};
    case MV::IMPULSE:
      return ossia::value{ossia::impulse{}};
    case MV::BOOL:
      return ossia::value{(bool)m.i};
    case MV::STRING:
      return ossia::value{m.s};
    case MV::CHAR:
      return ossia::value{(char)m.i};
    case MV::LIST:
    {
      std::vector<ossia::value> l;
      for (auto& x : m.l)
        l.push_back(to_value(x));
      return ossia::value{std::move(l)};
    }
    default:
      return ossia::value{};
  }
}

inline bool same_float(float a, float b)
{
  return std::memcmp(&a, &b, sizeof a) == 0;
}

// exact (bitwise for floats) structural comparison, by get_type and target
inline bool matches(const ossia::value& x, const MV& m)
{
  if (x.get_type() != vt(m.t))
    return false;
  if (x.valid() != (m.t != MV::NONE))
    return false;
  switch (m.t)
  {
    case MV::FLOAT:
      return x.target<float>() && same_float(*x.target<float>(), m.f)
             && !x.target<int32_t>();
    case MV::INT:
      return x.target<int32_t>() && *x.target<int32_t>() == m.i
             && !x.target<float>();
    case MV::VEC2:
    {
      auto p = x.target<std::array<float, 2>>();
      return p && same_float((*p)[0], m.v[0]) && same_float((*p)[1], m.v[1]);
    }
    case MV::VEC3:
    {
      auto p = x.target<std::array<float, 3>>();
      return p && same_float((*p)[0], m.v[0]) && same_float((*p)[1], m.v[1])
             && same_float((*p)[2], m.v[2]);
    }
    case MV::VEC4:
    {
      auto p = x.target<std::array<float, 4>>();
      return p && same_float((*p)[0], m.v[0]) && same_float((*p)[1], m.v[1])
             && same_float((*p)[2], m.v[2]) && same_float((*p)[3], m.v[3]);
    }
    case MV::IMPULSE:
      return x.target<ossia::impulse>() != nullptr;
    case MV::BOOL:
      return x.target<bool>() && *x.target<bool>() == (bool)m.i;
    case MV::STRING:
      return x.target<std::string>() && *x.target<std::string>() == m.s;
    case MV::CHAR:
      return x.target<char>() && *x.target<char>() == (char)m.i;
    case MV::LIST:
    {
      auto p = x.target<std::vector<ossia::value>>();
      if (!p || p->size() != m.l.size())
        return false;
      for (std::size_t i = 0; i < m.l.size(); i++)
        if (!matches((*p)[i], m.l[i]))
          return false;
      return true;
    }
    default:
      return !x.target<float>() && !x.target<std::string>();
  }
}

inline std::string show(const MV& m)
{
  std::ostringstream o;
  o << std::setprecision(9);
  switch (m.t)
  {
    case MV::FLOAT:
      o << "f:" << m.f;
      break;
    case MV::INT:
      o << "i:" << m.i;
      break;
    case MV::VEC2:
      o << "v2:" << m.v[0] << "," << m.v[1];
      break;
    case MV::VEC3:
      o << "v3:" << m.v[0] << "," << m.v[1] << "," << m.v[2];
      break;
    case MV::VEC4:
      o << "v4:" << m.v[0] << "," << m.v[1] << "," << m.v[2] << "," << m.v[3];
      break;
    case MV::IMPULSE:
      o << "impulse";
      break;
    case MV::BOOL:
      o << "b:" << (m.i ? "true" : "false");
      break;
    case MV::STRING:
      o << "s:\"" << m.s << "\"";
      break;
    case MV::CHAR:
      o << "c:" << m.i;
      break;
    case MV::LIST:
      o << "[";
      for (std::size_t i = 0; i < m.l.size(); i++)
        o << (i ? ", " : "") << show(m.l[i]);
      o << "]";
      break;
    default:
      o << "unset";
  }
  return o.str();
}

// model read back from a real value
inline MV from_value(const ossia::value& x)
{
  MV m;
  switch (x.get_type())
  {
    case ossia::val_type::FLOAT:
      m.t = MV::FLOAT;
      m.f = x.get<float>();
      break;
    case ossia::val_type::INT:
      m.t = MV::INT;
      m.i = x.get<int32_t>();
      break;
    case ossia::val_type::VEC2F:
    {
      m.t = MV::VEC2;
      auto a = x.get<std::array<float, 2>>();
      std::copy(a.begin(), a.end(), m.v.begin());
      break;
    }
    case ossia::val_type::VEC3F:
    {
      m.t = MV::VEC3;
      auto a = x.get<std::array<float, 3>>();
      std::copy(a.begin(), a.end(), m.v.begin());
      break;
    }
    case ossia::val_type::VEC4F:
    {
      m.t = MV::VEC4;
      m.v = x.get<std::array<float, 4>>();
      break;
    }
    case ossia::val_type::IMPULSE:
      m.t = MV::IMPULSE;
      break;
    case ossia::val_type::BOOL:
      m.t = MV::BOOL;
      m.i = x.get<bool>();
      break;
    case ossia::val_type::STRING:
      m.t = MV::STRING;
      m.s = x.get<std::string>();
      break;
    case ossia::val_type::CHAR:
      m.t = MV::CHAR;
      m.i = x.get<char>();
      break;
    case ossia::val_type::LIST:
      m.t = MV::LIST;
      for (auto& y : x.get<std::vector<ossia::value>>())
        m.l.push_back(from_value(y));
      break;
    default:
      break;
  }
  return m;
}
inline std::string show(const ossia::value& v) { return show(from_value(v)); }

struct Opts
{
  bool none = false;    // may be unset at top level
  bool impulse = true;
  bool lists = true;
  bool nested_none = false;
  bool empty_list = true;
  bool strings = true;
  bool chars = true;
  int maxdepth = 3;
  const char* alphabet = "ab \"'\\,[]:/{}x01\t~";
  bool printable_char = false;
};

inline MV gen(vf::Case& c, const Opts& o = {}, int depth = 0)
{
  MV m;
  for (;;)
  {
    switch (c.draw(12))
    {
      case 0:
        m.t = MV::INT;
        m.i = c.i32();
        return m;
      case 1:
      case 2:
        m.t = MV::FLOAT;
        m.f = c.f32();
        return m;
      case 3:
        m.t = MV::BOOL;
        m.i = c.coin();
        return m;
      case 4:
        if (!o.chars)
          continue;
        m.t = MV::CHAR;
        m.i = o.printable_char ? (int)c.range(33, 126) : (int)c.range(-128, 127);
        return m;
      case 5:
        if (!o.strings)
          continue;
        m.t = MV::STRING;
        m.s = c.str(24, o.alphabet);
        return m;
      case 6:
        m.t = MV::VEC2;
        for (int i = 0; i < 2; i++)
          m.v[i] = c.f32();
        return m;
      case 7:
        m.t = MV::VEC3;
        for (int i = 0; i < 3; i++)
          m.v[i] = c.f32();
        return m;
      case 8:
        m.t = MV::VEC4;
        for (int i = 0; i < 4; i++)
          m.v[i] = c.f32();
        return m;
      case 9:
        if (!o.impulse)
          continue;
        m.t = MV::IMPULSE;
        return m;
      case 10:
        if (!o.lists || depth >= o.maxdepth)
          continue;
        m.t = MV::LIST;
        for (std::size_t n = 0; c.more(n, 8, 3); n++)
          m.l.push_back(gen(c, o, depth + 1));
        if (m.l.empty() && !o.empty_list)
          m.l.push_back(gen(c, o, depth + 1));
        return m;
      default:
        if (depth == 0 ? o.none : o.nested_none)
          return m;
        continue;
    }
  }
}

// a small change to m, to make equal / nearly equal pairs frequent
inline MV mutate(vf::Case& c, MV m, const Opts& o)
{
  switch (m.t)
  {
    case MV::FLOAT:
      if (c.coin())
        m.f += (float)c.range(-1, 1);
      else if (c.coin() && std::abs(m.f) < 1e6f)
      {
        m.t = MV::INT;
        m.i = (int)m.f;
      }
      return m;
    case MV::INT:
      if (c.coin() && m.i > -2000000000 && m.i < 2000000000)
        m.i += (int)c.range(-1, 1);
      else if (c.coin())
      {
        m.t = MV::FLOAT;
        m.f = (float)m.i;
      }
      return m;
    case MV::VEC2:
    case MV::VEC3:
    case MV::VEC4:
      m.v[c.draw(m.t == MV::VEC2 ? 2 : m.t == MV::VEC3 ? 3 : 4)]
          += (float)c.range(-1, 1);
      return m;
    case MV::STRING:
      if (!m.s.empty() && c.coin())
        m.s.pop_back();
      else if (c.coin())
        m.s.push_back('a');
      return m;
    case MV::LIST:
      if (m.l.empty() || c.chance(1, 4))
      {
        m.l.push_back(gen(c, o, 1));
        return m;
      }
      {
        auto& x = m.l[c.draw(m.l.size())];
        x = mutate(c, x, o);
      }
      return m;
    default:
      return c.coin() ? m : gen(c, o);
  }
}
}
