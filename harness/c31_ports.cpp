// C31: ports: values written and carried over cables, audio mixing, delay lines, gains, MIDI.
#include "vf.hpp"
#include "gen_value.hpp"

#include <ossia/dataflow/control_inlets.hpp>
#include <ossia/dataflow/data.hpp>
#include <ossia/dataflow/data_copy.hpp>
#include <ossia/dataflow/port.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/value/format_value.hpp>

#include <cmath>

using namespace ossia;
const char* const vf::rule
    = "histories of writes at dates, cables between ports with domains, units and indices, "
      "delay lines read anywhere, audio of uneven channels and lengths, gains and pans; "
      "non-trivial: two writes, or two channels or sources";

struct TV
{
  value v;
  int64_t ts;
};
static std::string show(const std::vector<TV>& m)
{
  std::string s;
  for (auto& e : m)
    s += value_to_pretty_string(e.v) + " @" + std::to_string(e.ts) + "; ";
  return s;
}
static std::string show(const value_port& p)
{
  std::string s;
  for (auto& e : p.get_data())
    s += value_to_pretty_string(e.value) + " @" + std::to_string(e.timestamp) + "; ";
  return s;
}
static bool close(const value& a, const value& b)
{
  if (a.get_type() != b.get_type())
    return false;
  auto nf = [](double x, double y) { return std::fabs(x - y) <= 1e-4 * (1 + std::fabs(x) + std::fabs(y)); };
  switch (a.get_type())
  {
    case val_type::FLOAT:
      return nf(a.get<float>(), b.get<float>());
    case val_type::VEC2F:
      return nf(a.get<vec2f>()[0], b.get<vec2f>()[0]) && nf(a.get<vec2f>()[1], b.get<vec2f>()[1]);
    case val_type::VEC3F:
      for (int i = 0; i < 3; i++)
        if (!nf(a.get<vec3f>()[i], b.get<vec3f>()[i]))
          return false;
      return true;
    case val_type::VEC4F:
      for (int i = 0; i < 4; i++)
        if (!nf(a.get<vec4f>()[i], b.get<vec4f>()[i]))
          return false;
      return true;
    case val_type::LIST:
    {
      auto &x = a.get<std::vector<value>>(), &y = b.get<std::vector<value>>();
      if (x.size() != y.size())
        return false;
      for (std::size_t i = 0; i < x.size(); i++)
        if (!close(x[i], y[i]))
          return false;
      return true;
    }
    case val_type::INT: // the result of a division, truncated
      return std::abs((int64_t)a.get<int>() - b.get<int>()) <= 1;
    case val_type::CHAR:
      return std::abs(a.get<char>() - b.get<char>()) <= 1;
    case val_type::IMPULSE:
    case val_type::NONE:
      return true;
    default:
      return a == b;
  }
}
static bool same(const value_port& p, const std::vector<TV>& m)
{
  auto& d = p.get_data();
  if (d.size() != m.size())
    return false;
  for (std::size_t i = 0; i < d.size(); i++)
    if (d[i].timestamp != m[i].ts || !close(d[i].value, m[i].v))
      return false;
  return true;
}
#define SAME(P, M, WHAT) \
  VF_CHECK(same(P, M), WHAT << ": the port holds " << show(P) << " instead of " << show(M))

static void put(std::vector<TV>& m, data_mix_method mm, const value& v, int64_t ts)
{
  if (mm == mix_replace)
    for (auto& e : m)
      if (e.ts == ts)
      {
        e.v = v;
        return;
      }
  m.push_back({v, ts});
}

// numbers only, moderate
static value gen_num(vf::Case& c, int depth = 1)
{
  switch (c.weighted({4, 3, 1, 1, 1, 1, 1, depth ? 1u : 0u, 1}))
  {
    case 0:
      return (float)c.range(-80, 80) / 8.f;
    case 1:
      return (int)c.range(-50, 50);
    case 2:
      return c.coin();
    case 3:
      return make_vec((float)c.range(-9, 9), (float)c.range(-9, 9));
    case 4:
      return make_vec((float)c.range(-9, 9), (float)c.range(-9, 9), (float)c.range(-9, 9));
    case 5:
      return make_vec(1.f, (float)c.range(-9, 9), 2.f, (float)c.range(-9, 9));
    case 6:
      return (char)c.range(0, 100);
    case 7:
    {
      std::vector<value> l;
      for (std::size_t n = c.size(0, 3), i = 0; i < n; i++)
        l.push_back(gen_num(c, depth - 1));
      return l;
    }
    default:
      return impulse{};
  }
}

VF_PROP(writes, 60000, 600000)
{
  value_port p;
  p.mix_method = c.coin() ? mix_append : mix_replace;
  std::vector<TV> m;
  int n = 0;
  for (int i = 0; c.more(i, 30, 9); i++)
  {
    switch (c.weighted({6, 1, 1, 1}))
    {
      case 0:
      {
        const value v = c.coin() ? gv::to_value(gv::gen(c)) : gen_num(c);
        const int64_t ts = c.coin() ? c.range(0, 3) : c.range(-2, 1000);
        VF_NOTE("write " << value_to_pretty_string(v) << " @" << ts);
        if (c.coin())
          p.write_value(v, ts);
        else
          p.write_value(value(v), ts);
        put(m, p.mix_method, v, ts);
        n++;
        break;
      }
      case 1:
        VF_NOTE("clear");
        if (c.coin())
          p.clear();
        else
          clear_data{}(p);
        m.clear();
        break;
      case 2:
      {
        value_vector<timed_value> d;
        m.clear();
        for (std::size_t k = c.size(0, 6), j = 0; j < k; j++)
        {
          value v = gen_num(c);
          int64_t ts = (int64_t)j * c.range(0, 3);
          d.push_back(timed_value{v, ts});
          m.push_back({v, ts});
        }
        p.set_data(d);
        break;
      }
      default:
        p.mix_method = c.coin() ? mix_append : mix_replace;
    }
    SAME(p, m, "writing");
  }
  c.nontrivial(n >= 2);
}

// ------------------------------------------------------------------- cables
struct Dom
{
  domain d;
  bool set{}, numeric{};
  double lo{}, hi{};
};
static Dom gen_dom(vf::Case& c)
{
  Dom r;
  if (c.chance(1, 3))
    return r;
  r.set = true;
  const int lo = (int)c.range(-20, 20), hi = lo + (int)c.range(0, 20);
  switch (c.weighted({4, 3, 1, 1, 1}))
  {
    case 0:
      r.numeric = true;
      r.lo = lo / 2., r.hi = hi / 2.;
      r.d = domain_base<float>{lo / 2.f, hi / 2.f};
      break;
    case 1:
      r.numeric = true;
      r.lo = lo, r.hi = hi;
      r.d = domain_base<int>{lo, hi};
      break;
    case 2:
      r.numeric = true;
      r.lo = 0, r.hi = 1;
      r.d = domain_base<bool>{};
      break;
    case 3:
    {
      domain_base<float> f;
      f.min = (float)lo;
      r.d = f;
      break;
    }
    default:
      r.d = domain_base<std::string>{};
  }
  return r;
}
static value rescale(const value& v, double smin, double smax, double dmin, double dmax)
{
  auto f = [&](double x) { return dmin + (x - smin) * (dmax - dmin) / (smax - smin); };
  switch (v.get_type())
  {
    case val_type::FLOAT:
      return (float)f(v.get<float>());
    case val_type::INT:
      return (int)(float)f(v.get<int>());
    case val_type::CHAR:
      return (char)(int)f(v.get<char>());
    case val_type::BOOL:
      return (float)f(v.get<bool>()) != 0.f;
    case val_type::VEC2F:
    {
      auto a = v.get<vec2f>();
      return make_vec(f(a[0]), f(a[1]));
    }
    case val_type::VEC3F:
    {
      auto a = v.get<vec3f>();
      return make_vec(f(a[0]), f(a[1]), f(a[2]));
    }
    case val_type::VEC4F:
    {
      auto a = v.get<vec4f>();
      return make_vec(f(a[0]), f(a[1]), f(a[2]), f(a[3]));
    }
    case val_type::LIST:
    {
      auto l = v.get<std::vector<value>>();
      for (auto& e : l)
        e = rescale(e, smin, smax, dmin, dmax);
      return l;
    }
    default:
      return v;
  }
}
// a type of port: nothing, a plain type, a distance
struct Ty
{
  complex_type t;
  bool set{};
  double metres{};
};
static Ty gen_ty(vf::Case& c)
{
  Ty r;
  switch (c.weighted({3, 1, 2}))
  {
    case 0:
      break;
    case 1:
      r.set = true;
      r.t = c.pick({val_type::FLOAT, val_type::INT});
      break;
    default:
      r.set = true;
      switch (c.draw(3))
      {
        case 0:
          r.metres = 1.;
          r.t = unit_t{meter_u{}};
          break;
        case 1:
          r.metres = 0.01;
          r.t = unit_t{centimeter_u{}};
          break;
        default:
          r.metres = 1000.;
          r.t = unit_t{kilometer_u{}};
      }
  }
  return r;
}

VF_PROP(cables, 60000, 600000)
{
  Dom sd = gen_dom(c), td = gen_dom(c);
  Ty st = gen_ty(c), tt = gen_ty(c);
  value_port sink;
  sink.mix_method = c.coin() ? mix_append : mix_replace;
  sink.domain = td.d;
  sink.type = tt.t;
  std::vector<TV> m;
  const int sources = (int)c.range(1, 3);
  const bool units = st.metres > 0 && tt.metres > 0;
  for (int s = 0; s < sources; s++)
  {
    value_port src;
    src.domain = sd.d;
    src.type = st.t;
    value_vector<timed_value> d;
    for (std::size_t k = c.size(0, 5), j = 0; j < k; j++)
    {
      value v = units ? value((float)c.range(-80, 80) / 8.f) : gen_num(c);
      d.push_back(timed_value{v, (int64_t)c.range(0, 3)});
    }
    src.set_data(d);
    sink.add_port_values(src);
    for (auto& e : d)
    {
      value v = e.value;
      if (units)
        v = (float)(v.get<float>() * st.metres / tt.metres);
      if (sd.numeric && td.numeric && sd.lo != sd.hi)
      {
        v = rescale(v, sd.lo, sd.hi, td.lo, td.hi);
        c.label("rescaled");
      }
      // a cable with a narrow domain may push a character or an integer out of its type
      put(m, sink.mix_method, v, e.timestamp);
    }
    // the source keeps its content
    std::vector<TV> before;
    for (auto& e : d)
      before.push_back({e.value, e.timestamp});
    SAME(src, before, "carrying a cable");
  }
  auto wild = [](auto& self, const value& v) -> bool {
    if (v.get_type() == val_type::CHAR)
      return true;
    if (v.get_type() == val_type::BOOL)
      return true;
    if (v.get_type() == val_type::LIST)
      for (auto& e : v.get<std::vector<value>>())
        if (self(self, e))
          return true;
    return false;
  };
  // characters and booleans through a change of range depend on rounding: their type only
  if (sd.numeric && td.numeric)
  {
    VF_CHECK(sink.get_data().size() == m.size(), "the port holds " << show(sink) << " instead of " << show(m));
    for (std::size_t i = 0; i < m.size(); i++)
    {
      auto& g = sink.get_data()[i];
      VF_CHECK(
          g.timestamp == m[i].ts
              && (wild(wild, m[i].v) ? g.value.get_type() == m[i].v.get_type() : close(g.value, m[i].v)),
          "the port holds " << show(sink) << " instead of " << show(m));
    }
  }
  else
    SAME(sink, m, "carrying a cable");
  c.nontrivial(m.size() >= 2);
  c.label(units, "units converted");
}

// values that come from the environment: converted to the unit, then the index of the port
static value at(const value& v, const destination_index& i)
{
  return get_value_at_index(v, i);
}
VF_PROP(environment, 50000, 500000)
{
  Ty st = gen_ty(c), tt = gen_ty(c);
  value_port sink;
  sink.mix_method = c.coin() ? mix_append : mix_replace;
  sink.type = tt.t;
  if (c.chance(1, 3))
    sink.index = destination_index{(int)c.range(0, 3)};
  const bool units = st.metres > 0 && tt.metres > 0 && st.metres != tt.metres;
  std::vector<TV> m;
  ossia::net::generic_device dev{"d"};
  auto* par = dev.create_child("p")->create_parameter(units ? val_type::FLOAT : val_type::LIST);
  if (units)
    par->set_unit(*st.t.target<unit_t>());
  auto expect = [&](const value& v, bool has_type) {
    value r = v;
    if (units && has_type)
      r = (float)(v.get<float>() * st.metres / tt.metres);
    if (sink.index.empty())
      return r;
    return at(r, sink.index);
  };
  const int n = (int)c.range(1, 5);
  for (int i = 0; i < n; i++)
  {
    // a port with a unit takes numbers
    value v = tt.metres > 0 ? value((float)c.range(-80, 80) / 8.f) : gen_num(c);
    switch (c.draw(4))
    {
      case 0:
      {
        typed_value t{timed_value{v, (int64_t)i}, destination_index{}, st.t};
        const bool plain = c.coin();
        if (plain)
          sink.add_local_value(t);
        else
        {
          value_vector<typed_value> vec;
          vec.push_back(t);
          copy_data{}(vec, sink);
        }
        put(m, sink.mix_method, expect(v, true), i);
        break;
      }
      case 1:
      {
        // already taken at the same index with the same type: as it is
        typed_value t{timed_value{v, (int64_t)i}, sink.index, sink.type};
        sink.add_local_value(t);
        put(m, sink.mix_method, v, i);
        break;
      }
      case 2:
        if (units)
        {
          par->set_value(v);
          copy_data{}(*par, sink);
          put(m, sink.mix_method, expect(v, true), 0);
        }
        else
        {
          sink.add_global_value(*par, v);
          put(m, sink.mix_method, expect(v, false), 0);
        }
        break;
      default:
      {
        value_vector<value> vec;
        vec.push_back(v);
        vec.push_back(v);
        copy_data{}(*par, vec, sink);
        put(m, sink.mix_method, expect(v, units), 0);
        put(m, sink.mix_method, expect(v, units), 0);
      }
    }
    SAME(sink, m, "reading the environment");
  }
  c.nontrivial(n >= 2);
  c.label(units, "units converted");
  c.label(!sink.index.empty(), "one component");
}

// -------------------------------------------------------------- delay lines
VF_PROP(delay_lines, 30000, 300000)
{
  value_delay_line vl;
  midi_delay_line ml;
  audio_delay_line al;
  std::vector<std::vector<TV>> vm;
  std::vector<std::vector<std::vector<uint8_t>>> mm;
  std::vector<std::vector<std::vector<double>>> am;
  const int n = (int)c.range(0, 5);
  for (int i = 0; i < n; i++)
  {
    value_port vp;
    midi_port mp;
    audio_port ap;
    vm.emplace_back();
    for (std::size_t k = c.size(0, 6), j = 0; j < k; j++)
    {
      value v = gen_num(c);
      vp.write_value(v, (int64_t)j);
      put(vm.back(), mix_append, v, (int64_t)j);
    }
    mm.emplace_back();
    for (std::size_t k = c.size(0, 6), j = 0; j < k; j++)
    {
      uint8_t note = (uint8_t)c.draw(128);
      mp.note_on(1, note, (uint8_t)j);
      auto& b = mp.messages.back().bytes;
      mm.back().push_back({b.begin(), b.end()});
    }
    am.emplace_back();
    for (std::size_t k = c.size(0, 3), j = 0; j < k; j++)
    {
      ap.samples.emplace_back();
      am.back().emplace_back();
      for (std::size_t l = c.size(0, 300), q = 0; q < l; q++)
      {
        double x = (double)(q + 1) * (double)(j + 2) + i;
        ap.samples.back().push_back(x);
        am.back().back().push_back(x);
      }
    }
    copy_data{}(vp, vl);
    copy_data{}(mp, ml);
    copy_data{}(ap, al);
  }
  VF_CHECK(
      data_size{}(vl) == (std::size_t)n && data_size{}(ml) == (std::size_t)n && data_size{}(al) == (std::size_t)n,
      "number of ticks in the delay lines");
  value_port vi;
  midi_port mi;
  audio_port ai;
  std::vector<TV> ve;
  std::vector<std::vector<uint8_t>> me;
  std::vector<std::vector<double>> ae;
  for (int r = 0; r < 4; r++)
  {
    const std::size_t pos = c.size(0, 6);
    copy_data_pos{pos}(vl, vi);
    copy_data_pos{pos}(ml, mi);
    copy_data_pos{pos}(al, ai);
    if (pos < (std::size_t)n)
    {
      for (auto& e : vm[pos])
        put(ve, mix_append, e.v, e.ts);
      for (auto& e : mm[pos])
        me.push_back(e);
      if (ae.size() < am[pos].size())
        ae.resize(am[pos].size());
      for (std::size_t ch = 0; ch < am[pos].size(); ch++)
      {
        if (ae[ch].size() < am[pos][ch].size())
          ae[ch].resize(am[pos][ch].size());
        for (std::size_t s = 0; s < am[pos][ch].size(); s++)
          ae[ch][s] += am[pos][ch][s];
      }
    }
    SAME(vi, ve, "reading a delay line");
    VF_CHECK(mi.messages.size() == me.size(), "messages read from a delay line");
    for (std::size_t k = 0; k < me.size(); k++)
      VF_CHECK(
          std::equal(me[k].begin(), me[k].end(), mi.messages[k].bytes.begin(), mi.messages[k].bytes.end()),
          "a MIDI message changed in a delay line");
    VF_CHECK(ai.samples.size() == ae.size(), "channels read from a delay line");
    for (std::size_t ch = 0; ch < ae.size(); ch++)
    {
      VF_CHECK(ai.samples[ch].size() == ae[ch].size(), "samples read from a delay line");
      for (std::size_t s = 0; s < ae[ch].size(); s++)
        VF_CHECK(ai.samples[ch][s] == ae[ch][s], "channel " << ch << " sample " << s << " " << ai.samples[ch][s]);
    }
  }
  c.nontrivial(n >= 2);
}

// a delayed cable converts like one that is not
VF_PROP(delayed_units, 30000, 300000)
{
  Ty st = gen_ty(c), tt = gen_ty(c);
  value_port src, sink;
  src.type = st.t;
  sink.type = tt.t;
  if (c.chance(1, 3))
    sink.index = destination_index{(int)c.range(0, 2)};
  if (c.chance(1, 3))
    src.index = destination_index{(int)c.range(0, 2)};
  const bool units = st.metres > 0 && tt.metres > 0 && st.metres != tt.metres;
  const bool as_is = sink.index == src.index && sink.type == src.type;
  std::vector<TV> m;
  const int n = (int)c.range(1, 5);
  for (int i = 0; i < n; i++)
  {
    value v = tt.metres > 0 || st.metres > 0 ? value((float)c.range(-80, 80) / 8.f) : gen_num(c);
    const int64_t ts = c.range(0, 9);
    src.write_value(v, ts);
    if (units)
      v = (float)(v.get<float>() * st.metres / tt.metres);
    if (!as_is && !sink.index.empty())
      v = at(v, sink.index);
    m.push_back({v, ts});
  }
  value_delay_line l;
  copy_data{}(src, l);
  copy_data_pos{0}(l, sink);
  SAME(sink, m, "reading a delay line");
  c.nontrivial(n >= 2);
  c.label(units, "units converted");
}

// -------------------------------------------------------------------- audio
using Buf = std::vector<std::vector<double>>;
static void gen_audio(vf::Case& c, audio_vector& v, Buf& m, std::size_t maxch)
{
  const std::size_t ch = c.size(0, maxch);
  const std::size_t common = c.pick({0, 1, 8, 64, 255, 256, 257, 300});
  for (std::size_t k = 0; k < ch; k++)
  {
    v.emplace_back();
    m.emplace_back();
    const std::size_t n = c.chance(3, 4) ? common : c.size(0, 300);
    const double a = (double)c.range(-8, 8) / 8., b = (double)c.range(1, 7);
    for (std::size_t i = 0; i < n; i++)
    {
      const double x = a + (double)(i % 16) * b;
      v.back().push_back(x);
      m.back().push_back(x);
    }
  }
}
static void same_audio(const audio_vector& v, const Buf& m, const char* what, double tol = 0)
{
  VF_CHECK(v.size() == m.size(), what << ": " << v.size() << " channels, expected " << m.size());
  for (std::size_t ch = 0; ch < m.size(); ch++)
  {
    VF_CHECK(
        v[ch].size() == m[ch].size(),
        what << ": channel " << ch << " has " << v[ch].size() << " samples, expected " << m[ch].size());
    for (std::size_t i = 0; i < m[ch].size(); i++)
      VF_CHECK(
          std::fabs(v[ch][i] - m[ch][i]) <= tol * std::fabs(m[ch][i]),
          what << ": channel " << ch << " sample " << i << " is " << v[ch][i] << ", expected " << m[ch][i]);
  }
}
VF_PROP(audio_mixing, 20000, 200000)
{
  // dirty memory first: a sum starts from silence
  {
    audio_vector junk;
    for (int i = 0; i < 3; i++)
    {
      junk.emplace_back();
      junk.back().resize(400);
      for (auto& x : junk.back())
        x = 1e30;
    }
  }
  audio_port sink;
  Buf m;
  const int n = (int)c.range(1, 4);
  for (int s = 0; s < n; s++)
  {
    audio_port src;
    Buf b;
    gen_audio(c, src.samples, b, 4);
    if (c.coin())
      mix(src.samples, sink.samples);
    else
      copy_data{}(src, sink);
    if (m.size() < b.size())
      m.resize(b.size());
    for (std::size_t ch = 0; ch < b.size(); ch++)
    {
      if (m[ch].size() < b[ch].size())
        m[ch].resize(b[ch].size());
      for (std::size_t i = 0; i < b[ch].size(); i++)
        m[ch][i] += b[ch][i];
    }
    same_audio(src.samples, b, "a source that was mixed");
    same_audio(sink.samples, m, "a mix");
    if (c.chance(1, 6))
    {
      clear_data{}(sink);
      for (auto& ch : m)
        ch.clear();
      same_audio(sink.samples, m, "a cleared port");
    }
  }
  c.nontrivial(n >= 2 && m.size() >= 2);
}

VF_PROP(gains, 20000, 200000)
{
  audio_outlet out;
  Buf m;
  const int ticks = (int)c.range(1, 3);
  double gain = 1.;
  std::vector<double> pan{1., 1.};
  if (c.coin())
  {
    gain = (double)c.range(-8, 16) / 8.;
    out.gain = gain;
  }
  if (c.coin())
  {
    pan.clear();
    out.pan.clear();
    for (std::size_t k = c.size(0, 4), i = 0; i < k; i++)
    {
      pan.push_back((double)c.range(0, 8) / 4.);
      out.pan.push_back(pan.back());
    }
  }
  for (int t = 0; t < ticks; t++)
  {
    out.data.samples.clear();
    m.clear();
    Buf b;
    const bool from_input = c.chance(1, 3);
    audio_port in;
    gen_audio(c, from_input ? in.samples : out.data.samples, b, 4);
    if (!from_input)
    {
      const int msgs = (int)c.draw(3);
      out.gain_inlet.data.clear();
      for (int i = 0; i < msgs; i++)
      {
        const int g = (int)c.range(-2, 3);
        switch (c.draw(3))
        {
          case 0:
            out.gain_inlet.data.write_value(g, 0);
            gain = g;
            break;
          case 1:
            out.gain_inlet.data.write_value(g / 2.f, 0);
            gain = g / 2.f;
            break;
          default:
            out.gain_inlet.data.write_value(g > 0, 0);
            gain = g > 0 ? 1 : 0;
        }
      }
      out.post_process();
      VF_CHECK(out.gain == gain, "the gain is " << out.gain << ", expected " << gain);
    }
    else if (b.size() == 1)
      process_audio_out_mono(in, out);
    else if (b.size() > 1)
      process_audio_out_general(in, out);
    m = b;
    for (std::size_t ch = 0; ch < b.size(); ch++)
    {
      const double p = b.size() == 1 ? 1. : ch < pan.size() ? pan[ch] : 1.;
      for (auto& x : m[ch])
        x *= p * gain;
    }
    if (from_input && b.empty())
      continue;
    same_audio(out.data.samples, m, "an audio output", 1e-12);
    if (from_input)
      same_audio(in.samples, b, "an audio input", 0);
  }
  c.nontrivial(gain != 1. && m.size() >= 2);
}

// --------------------------------------------------------------------- MIDI
VF_PROP(midi, 40000, 400000)
{
  midi_port p;
  std::vector<std::vector<uint8_t>> m;
  const int n = (int)c.range(1, 12);
  for (int i = 0; i < n; i++)
  {
    const int ch = (int)c.range(1, 16);
    const uint8_t a = (uint8_t)c.draw(128), b = (uint8_t)c.draw(128);
    const uint8_t lo = (uint8_t)(ch - 1);
    switch (c.draw(8))
    {
      case 0:
        p.note_on(ch, a, b);
        m.push_back({uint8_t(0x90 | lo), a, b});
        break;
      case 1:
        p.note_off(ch, a, b);
        m.push_back({uint8_t(0x80 | lo), a, b});
        break;
      case 2:
        p.control_change(ch, a, b);
        m.push_back({uint8_t(0xB0 | lo), a, b});
        break;
      case 3:
        p.program_change(ch, a);
        m.push_back({uint8_t(0xC0 | lo), a});
        break;
      case 4:
      {
        const int v = (int)c.draw(16384);
        p.pitch_bend(ch, v);
        m.push_back({uint8_t(0xE0 | lo), uint8_t(v % 128), uint8_t(v / 128)});
        break;
      }
      case 5:
        p.pitch_bend(ch, a, b);
        m.push_back({uint8_t(0xE0 | lo), a, b});
        break;
      case 6:
        p.poly_pressure(ch, a, b);
        m.push_back({uint8_t(0xA0 | lo), a, b});
        break;
      default:
        p.aftertouch(ch, a);
        m.push_back({uint8_t(0xD0 | lo), a});
    }
  }
  midi_port q;
  copy_data{}(p, q);
  copy_data{}(p.messages, q);
  VF_CHECK(p.messages.size() == m.size() && q.messages.size() == 2 * m.size(), "number of MIDI messages");
  for (std::size_t i = 0; i < q.messages.size(); i++)
  {
    auto& w = m[i % m.size()];
    auto& g = q.messages[i].bytes;
    std::ostringstream s;
    for (int x : g)
      s << x << " ";
    VF_CHECK(std::equal(w.begin(), w.end(), g.begin(), g.end()), "MIDI message " << i << " is " << s.str());
  }
  clear_data{}(q);
  VF_CHECK(q.messages.empty(), "a cleared port has messages");
  c.nontrivial(n >= 2);
}
