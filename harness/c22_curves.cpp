// C22: easings, curve segments, curves, behaviours, mappings.
#include "vf.hpp"

#include <ossia/editor/automation/curve_value_visitor.hpp>
#include <ossia/editor/curve/behavior.hpp>
#include <ossia/editor/curve/curve.hpp>
#include <ossia/editor/curve/curve_segment.hpp>
#include <ossia/editor/curve/curve_segment/easing.hpp>
#include <ossia/editor/curve/curve_segment/empty.hpp>
#include <ossia/editor/curve/curve_segment/linear.hpp>
#include <ossia/editor/curve/curve_segment/power.hpp>
#include <ossia/editor/curve/curve_segment/sin.hpp>
#include <ossia/editor/exceptions.hpp>
#include <ossia/editor/mapper/detail/mapper_visitor.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/value/destination.hpp>
#include <ossia/network/value/format_value.hpp>

#include <cmath>
#include <functional>
#include <map>

using namespace ossia;
const char* const vf::rule
    = "easings at any ratio and any type; curves over histories of points added, removed, "
      "moved origins, copies and live start values, queried anywhere; behaviours and "
      "mappings of nested curves; non-trivial: an inner ratio, or two points or more";

// ---------------------------------------------------------------- reference
static const double PI = 3.14159265358979323846;
using F = double (*)(double);
static double quad(double t) { return t * t; }
static double cub(double t) { return t * t * t; }
static double quart(double t) { return t * t * t * t; }
static double quint(double t) { return t * t * t * t * t; }
static double sine(double t) { return 1. - std::cos(t * PI / 2.); }
static double circ(double t) { return 1. - std::sqrt(std::max(0., 1. - t * t)); }
static double expo(double t) { return t <= 0 ? 0 : std::pow(2., 10. * (t - 1.)); }
static double elast(double t) { return std::sin(13. * PI / 2. * t) * std::pow(2., 10. * (t - 1.)); }
static double back(double t) { return t * t * t - t * std::sin(t * PI); }
// four parabolas through 0, 4/11, 8/11, 9/10 and 1, given by their lowest point
static double bounce_o(double t)
{
  if (t < 4. / 11.)
    return 121. / 16. * t * t;
  if (t < 8. / 11.)
    return 9.075 * quad(t - 6. / 11.) + 0.7;
  if (t < 0.9)
    return quad(66. / 19.) * quad(t - 179. / 220.) + 0.91;
  return 10.8 * quad(t - 0.95) + 0.973;
}
static double bounce(double t) { return 1. - bounce_o(1. - t); }
static double in(F f, double t) { return f(t); }
static double out(F f, double t) { return 1. - f(1. - t); }
static double inout(F f, double t) { return t < 0.5 ? f(2. * t) / 2. : 1. - f(2. - 2. * t) / 2.; }
static double lin(double t) { return t; }
static double smoother(double t) { return t * t * t * (t * (t * 6. - 15.) + 10.); }

struct Ease
{
  const char* name;
  double (*mode)(F, double);
  F f;
  double (*d)(double);
  float (*s)(float);
  curve_segment<float> segf;
  curve_segment<int> segi;
  curve_segment<bool> segb;
  curve_segment<double> segd;
  double ref(double t) const { return mode(f, t); }
};
#define E1(N, M, R)                                                                            \
  Ease                                                                                         \
  {                                                                                            \
    #N, M, R, [](double t) -> double { return easing::N{}(t); },                               \
        [](float t) -> float { return easing::N{}(t); }, curve_segment_ease<float, easing::N>{}, \
        curve_segment_ease<int, easing::N>{}, curve_segment_ease<bool, easing::N>{},           \
        curve_segment_ease<double, easing::N>{}                                                \
  }
#define E3(N, R) E1(N##In, in, R), E1(N##Out, out, R), E1(N##InOut, inout, R)
static const std::vector<Ease>& eases()
{
  static const std::vector<Ease> e{
      E1(linear, in, lin), E3(quadratic, quad), E3(cubic, cub), E3(quartic, quart), E3(quintic, quint),
      E3(sine, sine), E3(circular, circ), E3(exponential, expo), E3(elastic, elast), E3(back, back),
      E3(bounce, bounce), E1(perlinInOut, in, smoother)};
  return e;
}

static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
// a number that was computed as a real and stored in Y
template <typename Y>
static bool stored(Y got, double ref, double tol)
{
  if constexpr (std::is_same_v<Y, bool>)
    return std::fabs(ref) <= tol || got == (ref != 0.);
  else if constexpr (std::is_integral_v<Y>)
    return got == (Y)std::trunc(ref) || got == (Y)std::trunc(ref + tol) || got == (Y)std::trunc(ref - tol);
  else
    return near(got, ref, tol);
}

VF_PROP(easings, 200000, 2000000)
{
  auto& e = eases()[c.draw(eases().size())];
  const double t = c.unit_interval();
  c.nontrivial(t > 0 && t < 1);
  const double want = e.ref(t);
  // expo of 0 and 1 are exact; around the steep start of the circle a float has less digits
  VF_CHECK(near(e.d(t), want, 1e-9), e.name << "(" << t << ") = " << e.d(t) << ", expected " << want);
  const float tf = (float)t;
  VF_CHECK(
      near(e.s(tf), e.ref(tf), 2e-5), e.name << "(" << tf << "f) = " << e.s(tf) << ", expected " << e.ref(tf));
  if (std::string(e.name).find("nential") == std::string::npos || t == 0 || t == 1)
  {
    VF_CHECK(near(e.d(0.), 0., 1e-3), e.name << "(0) = " << e.d(0.));
    VF_CHECK(near(e.d(1.), 1., 1e-3), e.name << "(1) = " << e.d(1.));
  }
  // between two values
  {
    const float a = c.f32(), b = c.f32();
    const double s = std::fabs(a) + std::fabs(b) + 1;
    VF_CHECK(
        near(e.segf(t, a, b), a + (b - (double)a) * want, 1e-5 * s),
        e.name << " from " << a << " to " << b << " at " << t << ": " << e.segf(t, a, b));
  }
  {
    const int a = (int)c.range(-1000, 1000), b = (int)c.range(-1000, 1000);
    const double w = a * (1 - want) + b * want;
    VF_CHECK(
        stored(e.segi(t, a, b), w, 1e-6),
        e.name << " from " << a << " to " << b << " at " << t << ": " << e.segi(t, a, b) << ", expected " << w);
  }
  {
    const double a = c.f64(), b = c.f64();
    const double s = std::fabs(a) + std::fabs(b) + 1;
    VF_CHECK(
        near(e.segd(t, a, b), a * (1 - want) + b * want, 1e-8 * s),
        e.name << " from " << a << " to " << b << " at " << t << ": " << e.segd(t, a, b));
  }
}

// ------------------------------------------------------------------ segments
struct Seg
{
  std::string name;
  std::function<double(double, double, double)> ref;
  curve_segment<float> f;
  curve_segment<int> i;
  curve_segment<bool> b;
  template <typename Y>
  auto& get()
  {
    if constexpr (std::is_same_v<Y, float>)
      return f;
    else if constexpr (std::is_same_v<Y, int>)
      return i;
    else
      return b;
  }
};
static Seg gen_seg(vf::Case& c)
{
  switch (c.weighted({4, 3, 3, 1, 1}))
  {
    case 0:
      return {
          "linear", [](double r, double a, double b) { return a * (1 - r) + b * r; },
          curve_segment_linear<float>{}, curve_segment_linear<int>{}, curve_segment_linear<bool>{}};
    case 1:
    {
      const double p = c.pick({1., 2., 0.5, 3.25, 0.1, 7., 12.});
      return {
          "power " + std::to_string(p),
          [p](double r, double a, double b) { return a + std::exp(p * std::log(r)) * (b - a); },
          curve_segment_power<float>{}(p), curve_segment_power<int>{}(p), curve_segment_power<bool>{}(p)};
    }
    case 2:
    {
      auto& e = eases()[c.draw(eases().size())];
      return {
          e.name, [&e](double r, double a, double b) { return a + e.ref(r) * (b - a); }, e.segf, e.segi,
          e.segb};
    }
    case 3:
      return {
          "empty", [](double, double a, double) { return a; }, curve_segment_empty<float>{},
          curve_segment_empty<int>{}, curve_segment_empty<bool>{}};
    default:
    {
      // smallfun keeps 24 bytes: three doubles
      const double fr = c.pick({1., 2., 0.25}), ph = c.pick({0., 1.}), am = c.pick({1., 0.5});
      return {
          "sine", [=](double r, double a, double b) {
            return a + am * std::sin(ph + 2 * PI * r * fr) * (b - a);
          },
          curve_segment_sin<float>{}(fr, ph, am), curve_segment_sin<int>{}(fr, ph, am),
          curve_segment_sin<bool>{}(fr, ph, am)};
    }
  }
}

VF_PROP(segments, 100000, 1000000)
{
  auto s = gen_seg(c);
  const double r = c.unit_interval();
  const double a = c.f32(), b = c.f32();
  c.nontrivial(r > 0 && r < 1);
  const double want = s.ref(r, a, b), sc = std::fabs(a) + std::fabs(b) + 1;
  VF_CHECK(
      near(s.f(r, a, b), want, 2e-5 * sc),
      s.name << " from " << a << " to " << b << " at " << r << ": " << s.f(r, a, b) << ", expected " << want);
  const int ia = (int)c.range(-500, 500), ib = (int)c.range(-500, 500);
  const double wi = s.ref(r, ia, ib);
  VF_CHECK(
      stored(s.i(r, ia, ib), wi, 1e-5),
      s.name << " from " << ia << " to " << ib << " at " << r << ": " << s.i(r, ia, ib) << ", expected " << wi);
}

// -------------------------------------------------------------------- curves
template <typename X, typename Y>
struct Model
{
  X x0{};
  Y y0{};
  bool live{};   // start value read from an address
  bool cached{}; // since the last reset
  Y cache{};
  std::map<X, std::pair<Y, Seg>> pts;

  // {value, tolerance}
  std::pair<double, double> at(X x, Y start)
  {
    // the last point before x, else the origin
    X px = x0;
    Y py = start;
    bool before = x0 < x;
    auto it = pts.lower_bound(x);
    if (it != pts.begin())
    {
      auto p = std::prev(it);
      px = p->first;
      py = p->second.first;
      before = true;
    }
    if (!before || it == pts.end())
      return {(double)py, 0.};
    const double ratio = ((double)x - (double)px) / ((double)it->first - (double)px);
    return {
        it->second.second.ref(ratio, py, it->second.first),
        3e-5 * (std::fabs((double)py) + std::fabs((double)it->second.first) + 1)};
  }
};
template <typename X>
static X gen_x(vf::Case& c)
{
  if constexpr (std::is_integral_v<X>)
    return (X)c.range(-12, 12);
  else
    return (X)((double)c.range(-24, 24) / 4. + (c.chance(1, 3) ? c.unit_interval() : 0.));
}
template <typename Y>
static Y gen_y(vf::Case& c)
{
  if constexpr (std::is_same_v<Y, bool>)
    return c.coin();
  else if constexpr (std::is_same_v<Y, int>)
    return (int)c.range(-100, 100);
  else
    return c.f32() / 16.f;
}

template <typename X, typename Y>
static void histories(vf::Case& c)
{
  ossia::net::generic_device dev{"d"};
  auto* par = dev.create_child("p")->create_parameter(val_type::FLOAT);
  const int shape = (int)c.draw(4);
  auto* vec = dev.create_child("v")->create_parameter(
      shape == 0 ? val_type::VEC3F : shape == 1 ? val_type::VEC2F : shape == 2 ? val_type::VEC4F : val_type::LIST);
  auto push_vec = [&](const float* pv) {
    if (shape == 0)
      vec->set_value(make_vec(pv[1], pv[2], pv[3]));
    else if (shape == 1)
      vec->set_value(make_vec(pv[1], pv[2]));
    else if (shape == 2)
      vec->set_value(make_vec(pv[1], pv[2], pv[3], 7.f));
    else // nested: the address uses two indices
      vec->set_value(std::vector<ossia::value>{
          std::string{"x"}, std::vector<ossia::value>{pv[1], (int)pv[2], make_vec(pv[3], 4.f)}});
  };
  const float zero[4]{};
  push_vec(zero);
  std::unique_ptr<curve<X, Y>> cv = std::make_unique<curve<X, Y>>();
  Model<X, Y> m;
  int which = -1;
  float pv[4]{};
  bool set_origin = false;
  auto start = [&]() -> Y {
    if (!m.live)
      return m.y0;
    if (!m.cached)
    {
      m.cached = true;
      m.cache = (Y)pv[which];
    }
    return m.cache;
  };
  auto query = [&](curve<X, Y>& k, const char* what) {
    X x = gen_x<X>(c);
    if (!m.pts.empty() && c.chance(1, 4))
    {
      auto it = m.pts.begin();
      std::advance(it, c.draw(m.pts.size()));
      x = it->first;
    }
    const auto w = m.at(x, start());
    const Y got = k.value_at(x);
    VF_NOTE(what << " " << x << ": " << (double)got << " (" << w.first << ")");
    VF_CHECK(
        stored<Y>(got, w.first, w.second),
        what << " at " << x << " gives " << (double)got << ", expected " << w.first);
  };
  int n = 0;
  for (int i = 0; c.more(i, 40, 14); i++)
  {
    switch (c.weighted({7, 2, 2, 2, 1, 1, 2, 2, 1}))
    {
      case 0:
      {
        X x = gen_x<X>(c);
        if (m.pts.count(x))
          break;
        Y y = gen_y<Y>(c);
        auto s = gen_seg(c);
        VF_NOTE("add " << x << " -> " << (double)y << " " << s.name);
        auto seg = s.template get<Y>();
        VF_CHECK(cv->add_point(std::move(seg), x, y), "adding a point is refused");
        m.pts.emplace(x, std::make_pair(y, s));
        n++;
        break;
      }
      case 1:
      {
        X x = gen_x<X>(c);
        if (!m.pts.empty() && c.chance(2, 3))
          x = m.pts.begin()->first;
        VF_NOTE("remove " << x);
        VF_CHECK(cv->remove_point(x) == (m.pts.erase(x) > 0), "removing a point");
        break;
      }
      case 2:
        m.x0 = gen_x<X>(c);
        VF_NOTE("x0 " << m.x0);
        cv->set_x0(m.x0);
        set_origin = true;
        break;
      case 3:
        m.y0 = gen_y<Y>(c);
        VF_NOTE("y0 " << (double)m.y0);
        cv->set_y0(m.y0);
        break;
      case 4:
      {
        which = (int)c.draw(shape == 1 ? 3 : 4);
        VF_NOTE("start at address " << which);
        if (which == 0)
          cv->set_y0_destination(destination{*par});
        else
        {
          destination_index idx{(char)(which - 1)};
          if (shape == 3)
            idx = which == 3 ? destination_index{1, 2, 0} : destination_index{1, (char)(which - 1)};
          cv->set_y0_destination(destination{*vec, idx});
        }
        m.live = true;
        m.cached = false;
        VF_CHECK(!!cv->get_y0_destination(), "destination");
        break;
      }
      case 5:
        VF_NOTE("reset");
        cv->reset();
        m.cached = false;
        break;
      case 6:
      {
        const float v = (float)c.range(-50, 50);
        const int k = (int)c.draw(4);
        VF_NOTE("address " << k << " = " << v);
        pv[k] = v;
        if (k == 0)
          par->set_value(v);
        else
          push_vec(pv);
        break;
      }
      case 7:
      {
        // a copy is the same curve
        switch (c.draw(4))
        {
          case 0:
            cv = std::make_unique<curve<X, Y>>(*cv);
            break;
          case 1:
            cv = std::make_unique<curve<X, Y>>(std::move(*cv));
            break;
          case 2:
          {
            auto o = std::make_unique<curve<X, Y>>();
            o->set_y0(gen_y<Y>(c));
            if (c.coin())
            {
              o->set_y0_destination(destination{*par});
              o->get_y0();
            }
            *o = *cv;
            cv = std::move(o);
            break;
          }
          default:
          {
            auto o = std::make_unique<curve<X, Y>>();
            o->set_x0(gen_x<X>(c));
            if (c.coin())
            {
              o->set_y0_destination(destination{*par});
              o->get_y0();
            }
            *o = std::move(*cv);
            cv = std::move(o);
          }
        }
        VF_NOTE("copy");
        m.cached = false;
        break;
      }
      default:
        query(*cv, "value");
    }
    VF_CHECK(cv->get_x0() == m.x0, "x0 is " << cv->get_x0());
    VF_CHECK(cv->get_y0() == start(), "y0 is " << (double)cv->get_y0() << ", expected " << (double)start());
    auto pts = cv->get_points();
    VF_CHECK(pts.size() == m.pts.size(), pts.size() << " points, expected " << m.pts.size());
    for (auto& p : m.pts)
      VF_CHECK(
          pts.find(p.first) != pts.end() && pts.find(p.first)->second.first == p.second.first,
          "the point at " << p.first << " is lost");
    query(*cv, "value");
    query(*cv, "value");
  }
  c.nontrivial(n >= 2);
  c.label(set_origin, "origin moved");
  c.label(m.live, "start value read from an address");
}

VF_PROP(curves, 30000, 400000)
{
  switch (c.draw(6))
  {
    case 0:
      return histories<double, float>(c);
    case 1:
      return histories<float, float>(c);
    case 2:
      return histories<double, int>(c);
    case 3:
      return histories<int, int>(c);
    case 4:
      return histories<double, bool>(c);
    default:
      return histories<int, float>(c);
  }
}

// ---------------------------------------------- behaviours: curves of a value
template <typename X, typename Y>
struct Simple
{
  std::shared_ptr<curve<X, Y>> k = std::make_shared<curve<X, Y>>();
  Model<X, Y> m;
  Simple(vf::Case& c)
  {
    m.x0 = (X)-8;
    m.y0 = gen_y<Y>(c);
    k->set_x0(m.x0);
    k->set_y0(m.y0);
    const int n = (int)c.range(0, 3);
    for (int i = 0; i < n; i++)
    {
      X x = gen_x<X>(c);
      if (m.pts.count(x))
        continue;
      Y y = gen_y<Y>(c);
      Seg s = gen_seg(c);
      auto seg = s.template get<Y>();
      k->add_point(std::move(seg), x, y);
      m.pts.emplace(x, std::make_pair(y, s));
    }
  }
};
// what a value should be: numbers with a tolerance
struct Want
{
  val_type t{val_type::NONE};
  std::vector<Want> sub;
  double v{}, tol{};
  ossia::value exact;
};
static bool same(const ossia::value& v, const Want& w)
{
  if (v.get_type() != w.t)
    return false;
  switch (w.t)
  {
    case val_type::NONE:
      return true;
    case val_type::FLOAT:
      return stored<float>(v.get<float>(), w.v, w.tol);
    case val_type::INT:
      return stored<int>(v.get<int>(), w.v, w.tol);
    case val_type::BOOL:
      return stored<bool>(v.get<bool>(), w.v, w.tol);
    case val_type::LIST:
    {
      auto& l = v.get<std::vector<ossia::value>>();
      if (l.size() != w.sub.size())
        return false;
      for (std::size_t i = 0; i < l.size(); i++)
        if (!same(l[i], w.sub[i]))
          return false;
      return true;
    }
    case val_type::VEC2F:
    case val_type::VEC3F:
    case val_type::VEC4F:
    {
      const std::size_t n = w.t == val_type::VEC2F ? 2 : w.t == val_type::VEC3F ? 3 : 4;
      if (w.sub.size() != n)
        return false;
      for (std::size_t i = 0; i < n; i++)
      {
        float f = n == 2 ? v.get<vec2f>()[i] : n == 3 ? v.get<vec3f>()[i] : v.get<vec4f>()[i];
        if (!stored<float>(f, w.sub[i].v, w.sub[i].tol))
          return false;
      }
      return true;
    }
    default:
      return v == w.exact;
  }
}
static std::string show(const Want& w)
{
  std::ostringstream s;
  s << "type " << (int)w.t << " " << w.v << "+-" << w.tol;
  if (!w.sub.empty())
  {
    s << " [";
    for (auto& e : w.sub)
      s << show(e) << "; ";
    s << "]";
  }
  return s.str();
}
static val_type vec_t(std::size_t n)
{
  return n == 2 ? val_type::VEC2F : n == 3 ? val_type::VEC3F : val_type::VEC4F;
}

// A behaviour and what it should give at a position (double abscissa)
struct Beh
{
  ossia::behavior b;
  int kind{}; // 0 float 1 int 2 bool 3 constant 4 list 5 none
  std::function<std::pair<double, double>(double)> at;
  ossia::value constant;
  std::vector<Beh> sub;
  bool contains_none() const
  {
    if (kind == 5)
      return true;
    for (auto& s : sub)
      if (s.contains_none())
        return true;
    return false;
  }
  Want want(double pos) const
  {
    Want w;
    switch (kind)
    {
      case 0:
      case 1:
      case 2:
        w.t = kind == 0 ? val_type::FLOAT : kind == 1 ? val_type::INT : val_type::BOOL;
        std::tie(w.v, w.tol) = at(pos);
        return w;
      case 3:
        w.t = constant.get_type();
        w.exact = constant;
        return w;
      case 4:
      {
        bool all = sub.size() >= 2 && sub.size() <= 4;
        for (auto& s : sub)
          all &= s.kind == 0;
        for (auto& s : sub)
          if (s.kind == 5)
            return {};
        w.t = all ? vec_t(sub.size()) : val_type::LIST;
        for (auto& s : sub)
          w.sub.push_back(s.want(pos));
        return w;
      }
      default:
        return w;
    }
  }
};
static Beh gen_beh(vf::Case& c, int depth)
{
  Beh r;
  switch (c.weighted({5, 2, 2, 1, depth ? 4u : 0u, depth < 2 ? 1u : 0u}))
  {
    case 0:
    {
      auto s = std::make_shared<Simple<double, float>>(c);
      r.b = behavior{s->k};
      r.at = [s](double p) { return s->m.at(p, s->m.y0); };
      break;
    }
    case 1:
    {
      r.kind = 1;
      auto s = std::make_shared<Simple<double, int>>(c);
      r.b = behavior{s->k};
      r.at = [s](double p) { return s->m.at(p, s->m.y0); };
      break;
    }
    case 2:
    {
      r.kind = 2;
      auto s = std::make_shared<Simple<double, bool>>(c);
      r.b = behavior{s->k};
      r.at = [s](double p) { return s->m.at(p, s->m.y0); };
      break;
    }
    case 3:
      r.kind = 3;
      r.constant = std::string(c.str(6));
      r.b = behavior{std::shared_ptr<curve_abstract>(std::make_shared<constant_curve>(r.constant))};
      break;
    case 4:
    {
      r.kind = 4;
      std::vector<behavior> bs;
      const int n = (int)c.range(0, 5);
      const bool floats = c.coin();
      for (int i = 0; i < n; i++)
      {
        if (floats)
        {
          Beh e;
          auto s = std::make_shared<Simple<double, float>>(c);
          e.b = behavior{s->k};
          e.at = [s](double p) { return s->m.at(p, s->m.y0); };
          r.sub.push_back(e);
        }
        else
          r.sub.push_back(gen_beh(c, depth - 1));
        bs.push_back(r.sub.back().b);
      }
      r.b = behavior{bs};
      break;
    }
    default:
      r.kind = 5;
  }
  return r;
}

VF_PROP(behaviours, 40000, 400000)
{
  auto b = gen_beh(c, 2);
  c.nontrivial(b.kind == 4 && b.sub.size() >= 2);
  // reset never fails, whatever is inside
  b.b.reset();
  const double pos = gen_x<double>(c);
  ossia::behavior k = b.b; // a copy drives the same curves
  auto vt = c.pick({val_type::FLOAT, val_type::INT, val_type::BOOL, val_type::VEC2F, val_type::VEC3F, val_type::VEC4F});
  const bool is_vec = vt == val_type::VEC2F || vt == val_type::VEC3F || vt == val_type::VEC4F;
  if (b.kind == 5)
  {
    VF_CHECK(!b.b, "an empty behaviour is not empty");
    bool thrown = false;
    try
    {
      ossia::apply(detail::compute_value_visitor{pos, vt}, k);
    }
    catch (const invalid_value_type_error&)
    {
      thrown = true;
    }
    VF_CHECK(thrown, "an empty behaviour has a value");
    return;
  }
  VF_CHECK(bool(k), "a behaviour is empty");
  const auto got = ossia::apply(detail::compute_value_visitor{pos, vt}, k);
  Want w = b.want(pos);
  if (is_vec && b.kind <= 2)
  {
    // every component follows the curve
    Want v;
    v.t = vt;
    const Want one = b.want(pos);
    for (int i = 0; i < (vt == val_type::VEC2F ? 2 : vt == val_type::VEC3F ? 3 : 4); i++)
    {
      v.sub.push_back(one);
      if (b.kind == 1)
        v.sub.back().tol += 1;
    }
    if (b.kind == 2)
    {
      auto f = (float)ossia::apply(detail::compute_value_visitor{pos, val_type::BOOL}, k).get<bool>();
      for (auto& s : v.sub)
        s.v = f;
    }
    w = v;
  }
  else if (is_vec && b.kind == 3)
    w = {};
  VF_CHECK(same(got, w), "a behaviour gives " << value_to_pretty_string(got) << ", expected " << show(w));
}

// ----------------------------------------------------- mappings: value to value
struct Map
{
  std::shared_ptr<curve_abstract> k;
  int xk{}, yk{};
  std::function<std::pair<double, double>(double)> at;
  Want want(double driver) const
  {
    Want w;
    w.t = yk == 0 ? val_type::FLOAT : yk == 1 ? val_type::INT : val_type::BOOL;
    // the driver in the type of the abscissa
    if (xk == 1)
      driver = (int)driver;
    std::tie(w.v, w.tol) = at(driver);
    return w;
  }
};
template <typename X, typename Y>
static Map mk_map(vf::Case& c)
{
  Map m;
  auto s = std::make_shared<Simple<X, Y>>(c);
  m.k = s->k;
  m.xk = std::is_same_v<X, float> ? 0 : 1;
  m.yk = std::is_same_v<Y, float> ? 0 : std::is_same_v<Y, int> ? 1 : 2;
  m.at = [s](double d) { return s->m.at((X)d, s->m.y0); };
  return m;
}
static Map gen_map(vf::Case& c)
{
  switch (c.weighted({4, 2, 2, 1, 1, 1}))
  {
    case 0:
      return mk_map<float, float>(c);
    case 1:
      return mk_map<float, int>(c);
    case 2:
      return mk_map<int, float>(c);
    case 3:
      return mk_map<int, int>(c);
    case 4:
      return mk_map<float, bool>(c);
    default:
      return mk_map<int, bool>(c);
  }
}
static std::pair<ossia::value, double> gen_driver(vf::Case& c)
{
  switch (c.draw(3))
  {
    case 0:
    {
      float f = gen_x<float>(c);
      return {f, f};
    }
    case 1:
    {
      int i = gen_x<int>(c);
      return {i, i};
    }
    default:
    {
      bool b = c.coin();
      return {b, b};
    }
  }
}

VF_PROP(mappings, 60000, 600000)
{
  auto m = gen_map(c);
  auto run = [](const ossia::value& v, const ossia::behavior& b) {
    return ossia::apply(detail::mapper_compute_visitor{}, v, b.v);
  };
  auto [v, d] = gen_driver(c);
  Want w = m.want(d);
  {
    auto got = run(v, behavior{m.k});
    VF_CHECK(
        same(got, w), value_to_pretty_string(v) << " maps to " << value_to_pretty_string(got) << ", expected "
                                                << show(w));
  }
  // lists: element by element
  {
    std::vector<ossia::value> l;
    Want wl;
    wl.t = val_type::LIST;
    const int n = (int)c.range(0, 4);
    for (int i = 0; i < n; i++)
    {
      if (c.chance(1, 6))
      {
        l.push_back({});
        wl.sub.push_back({});
        continue;
      }
      if (c.chance(1, 6))
      {
        auto [v2, d2] = gen_driver(c);
        l.push_back(std::vector<ossia::value>{v2});
        Want in;
        in.t = val_type::LIST;
        in.sub.push_back(m.want(d2));
        wl.sub.push_back(in);
        continue;
      }
      auto [v2, d2] = gen_driver(c);
      l.push_back(v2);
      wl.sub.push_back(m.want(d2));
    }
    c.nontrivial(n >= 2);
    const ossia::value lv = l;
    auto got = run(lv, behavior{m.k});
    VF_CHECK(same(got, wl), "a list maps to " << value_to_pretty_string(got) << ", expected " << show(wl));
    VF_CHECK(lv == ossia::value{l}, "mapping changed its input");
  }
  // one curve per element
  {
    std::vector<ossia::value> l;
    std::vector<behavior> bs;
    Want wl;
    wl.t = val_type::LIST;
    const int n = (int)c.range(0, 4), k = (int)c.range(0, 4);
    for (int i = 0; i < std::max(n, k); i++)
    {
      auto mm = gen_map(c);
      auto [v2, d2] = gen_driver(c);
      const bool novalue = c.chance(1, 8), nocurve = c.chance(1, 8);
      if (i < n)
        l.push_back(novalue ? ossia::value{} : v2);
      if (i < k)
        bs.push_back(nocurve ? behavior{} : behavior{mm.k});
      if (i < n && i < k)
        wl.sub.push_back(novalue || nocurve ? Want{} : mm.want(d2));
    }
    auto got = run(l, behavior{bs});
    VF_CHECK(
        same(got, wl), "a list through a list of curves gives " << value_to_pretty_string(got) << ", expected "
                                                                << show(wl));
  }
  // vectors
  {
    auto k = mk_map<float, float>(c);
    std::vector<Map> ks;
    std::vector<behavior> bs;
    for (int i = 0; i < 3; i++)
    {
      ks.push_back(mk_map<float, float>(c));
      bs.push_back(behavior{ks.back().k});
    }
    const vec3f in{gen_x<float>(c), gen_x<float>(c), gen_x<float>(c)};
    Want a, b;
    a.t = b.t = val_type::VEC3F;
    for (int i = 0; i < 3; i++)
    {
      a.sub.push_back(k.want(in[i]));
      b.sub.push_back(ks[i].want(in[i]));
    }
    auto ga = run(in, behavior{k.k});
    VF_CHECK(same(ga, a), "a vector maps to " << value_to_pretty_string(ga) << ", expected " << show(a));
    auto gb = run(in, behavior{bs});
    VF_CHECK(
        same(gb, b), "a vector through three curves gives " << value_to_pretty_string(gb) << ", expected " << show(b));
    bs.pop_back();
    VF_CHECK(!run(in, behavior{bs}).valid(), "a vector through two curves has a value");
  }
}
