// C05: a bounded number ends up in its range, where the mode says.
#include "gen_value.hpp"

#include <ossia/network/domain/domain.hpp>
#include <ossia/network/value/value.hpp>

using gv::MV;
using ossia::bounding_mode;
const char* const vf::rule
    = "(domain with minimum and/or maximum, bounding mode, value) triples: scalars, "
      "vectors and lists under scalar, per-component and generic domains; "
      "non-trivial: at least one component lies outside its range";

static const bounding_mode MODES[]
    = {bounding_mode::CLIP, bounding_mode::WRAP, bounding_mode::FOLD,
       bounding_mode::LOW,  bounding_mode::HIGH, bounding_mode::FREE};
static const char* const MNAME[] = {"clip", "wrap", "fold", "low", "high", "free"};

struct Range
{
  bool has_lo{}, has_hi{};
  double lo{}, hi{};
};
static std::string show(const Range& r)
{
  std::ostringstream o;
  o << "[" << (r.has_lo ? std::to_string(r.lo) : "-") << " .. "
    << (r.has_hi ? std::to_string(r.hi) : "-") << "]";
  return o.str();
}

// The value(s) that the mode allows; `tol` is the rounding allowance.
struct Accept
{
  double a, b;
  double tol;
  bool any_in_range{};
};
static Accept ref(int mode, double v, const Range& r, bool is_float)
{
  const double mag = std::max({std::abs(v), std::abs(r.lo), std::abs(r.hi), 1e-3});
  const double tol = is_float ? 4e-6 * mag : 0.;
  const double lo = r.lo, hi = r.hi;
  if (mode == 5)
    return {v, v, 0};
  if (r.has_lo && r.has_hi)
  {
    if (mode == 0)
      return {std::min(std::max(v, lo), hi), std::min(std::max(v, lo), hi), 0};
    if (mode == 3)
      return {std::max(v, lo), std::max(v, lo), 0};
    if (mode == 4)
      return {std::min(v, hi), std::min(v, hi), 0};
    if (v >= lo && v <= hi)
    {
      // both ends of the range are the same point of the circle
      if (mode == 1 && v == hi)
        return {lo, hi, 0};
      return {v, v, 0};
    }
    const double w = hi - lo;
    if (is_float && w < 1e-3 * mag)
      return {lo, hi, tol, true};
    double t = std::fmod(v - lo, mode == 1 ? w : 2 * w);
    if (t < 0)
      t += mode == 1 ? w : 2 * w;
    if (mode == 1)
    {
      // on the seam either end is right
      if (t <= tol || w - t <= tol)
        return {lo, hi, 2 * tol};
      return {lo + t, lo + t, tol};
    }
    const double f = t <= w ? t : 2 * w - t;
    return {lo + f, lo + f, tol};
  }
  if (r.has_lo && (mode == 0 || mode == 3))
    return {std::max(v, lo), std::max(v, lo), 0};
  if (r.has_hi && (mode == 0 || mode == 4))
    return {std::min(v, hi), std::min(v, hi), 0};
  return {v, v, 0};
}
static bool ok(double got, const Accept& a)
{
  if (a.any_in_range)
    return got >= a.a - a.tol && got <= a.b + a.tol;
  return std::abs(got - a.a) <= a.tol || std::abs(got - a.b) <= a.tol;
}
static bool outside(double v, const Range& r)
{
  return (r.has_lo && v < r.lo) || (r.has_hi && v > r.hi);
}

static double gen_num(vf::Case& c, MV::T t)
{
  switch (t)
  {
    case MV::INT:
      return c.coin() ? (double)c.range(-40, 40) : (double)c.range(-1000000000, 1000000000);
    case MV::CHAR:
      return (double)c.range(-128, 127);
    case MV::BOOL:
      return (double)c.coin();
    default:
      return c.coin() ? (float)c.range(-80, 80) / 4.f : c.f32();
  }
}
static Range gen_range(vf::Case& c, MV::T t)
{
  Range r;
  const int k = c.draw(6);
  r.has_lo = k != 1 && k != 5;
  r.has_hi = k != 2 && k != 5;
  r.lo = gen_num(c, t);
  r.hi = gen_num(c, t);
  if (r.lo > r.hi)
    std::swap(r.lo, r.hi);
  if (r.lo == r.hi)
  {
    if (t == MV::CHAR && r.hi == 127)
      r.lo -= 1;
    else if (t == MV::FLOAT)
      r.hi = (float)(r.hi + std::max(1., std::abs(r.hi) / 4));
    else
      r.hi += 1;
  }
  return r;
}
static double near_range(vf::Case& c, MV::T t, const Range& r)
{
  double v;
  switch (c.draw(4))
  {
    case 0:
      v = r.has_lo ? r.lo : r.hi;
      break;
    case 1:
    {
      // around a multiple of the width
      const double w = r.hi - r.lo;
      v = r.lo + w * (double)c.range(-3, 3) + (double)c.range(-2, 2);
      break;
    }
    default:
      v = gen_num(c, t);
  }
  if (t == MV::INT)
    v = std::min(std::max(v, -1000000000.), 1000000000.);
  if (t == MV::CHAR)
    v = std::min(std::max(v, -128.), 127.);
  if (t == MV::FLOAT)
    v = (float)v;
  return v;
}

static MV mk(MV::T t, double v)
{
  MV m;
  m.t = t;
  if (t == MV::FLOAT)
    m.f = (float)v;
  else
    m.i = (int)v;
  return m;
}
static double num(const ossia::value& v)
{
  switch (v.get_type())
  {
    case ossia::val_type::INT:
      return *v.target<int32_t>();
    case ossia::val_type::FLOAT:
      return *v.target<float>();
    case ossia::val_type::CHAR:
      return *v.target<char>();
    case ossia::val_type::BOOL:
      return *v.target<bool>();
    default:
      VF_FAIL("not a number: " << gv::show(v));
  }
}

template <typename T>
static ossia::domain scalar_domain(const Range& r)
{
  ossia::domain_base<T> d;
  if (r.has_lo)
    d.min = (T)r.lo;
  if (r.has_hi)
    d.max = (T)r.hi;
  return d;
}
static ossia::domain dom_of(MV::T t, const Range& r)
{
  switch (t)
  {
    case MV::INT:
      return scalar_domain<int32_t>(r);
    case MV::CHAR:
      return scalar_domain<char>(r);
    case MV::BOOL:
      return ossia::domain_base<bool>{};
    default:
      return scalar_domain<float>(r);
  }
}

// both overloads, which must agree
static ossia::value
apply_both(const ossia::domain& d, bounding_mode b, const ossia::value& v, const std::string& ctx)
{
  const MV before = gv::from_value(v);
  const ossia::value r1 = ossia::apply_domain(d, b, v);
  VF_CHECK(gv::matches(v, before), "bounding changed its argument, " << ctx);
  ossia::value tmp{v};
  const ossia::value r2 = ossia::apply_domain(d, b, std::move(tmp));
  VF_CHECK(
      gv::matches(r2, gv::from_value(r1)),
      "bounding a temporary gives " << gv::show(r2) << " and not " << gv::show(r1) << ", " << ctx);
  const ossia::value r3 = d.apply(b, v);
  VF_CHECK(gv::matches(r3, gv::from_value(r1)), "domain::apply differs, " << ctx);
  return r1;
}

VF_PROP(scalar, 400000, 8000000)
{
  static const MV::T TS[] = {MV::INT, MV::FLOAT, MV::CHAR, MV::BOOL};
  const MV::T t = TS[c.draw(4)];
  const int m = c.draw(6);
  Range r = gen_range(c, t);
  if (t == MV::BOOL)
    r = {true, true, 0, 1};
  const double v = near_range(c, t, r);
  const MV mv = mk(t, t == MV::BOOL ? c.coin() : v);
  const double x = num(gv::to_value(mv));
  std::ostringstream o;
  o.precision(9);
  o << gv::show(mv) << " " << MNAME[m] << " " << show(r);
  const std::string ctx = o.str();
  VF_NOTE(ctx);
  c.nontrivial(outside(x, r));
  c.label(MNAME[m]);
  const auto d = dom_of(t, r);
  const auto got = apply_both(d, MODES[m], gv::to_value(mv), ctx);
  VF_CHECK(got.get_type() == gv::vt(t), "type changed: " << gv::show(got) << ", " << ctx);
  // wrapping a boolean: true is the end of its range
  auto a = ref(m, x, r, t == MV::FLOAT);
  if (t == MV::BOOL)
  {
    if (m != 1)
      VF_CHECK(num(got) == x, "boolean changed, " << ctx);
    return;
  }
  VF_CHECK(ok(num(got), a), "got " << gv::show(got) << ", expected " << a.a << " or " << a.b << ", " << ctx);
  if (m <= 2)
  {
    const double tol = t == MV::FLOAT ? 1e-6 * std::max(std::abs(r.lo), std::abs(r.hi)) : 0;
    if (r.has_lo && (m == 0 || r.has_hi))
      VF_CHECK(num(got) >= r.lo - tol, gv::show(got) << " below the minimum, " << ctx);
    if (r.has_hi && (m == 0 || r.has_lo))
      VF_CHECK(num(got) <= r.hi + tol, gv::show(got) << " above the maximum, " << ctx);
  }
  // idempotent
  if (m != 1 && m != 2)
  {
    const auto again = ossia::apply_domain(d, MODES[m], got);
    VF_CHECK(gv::matches(again, gv::from_value(got)), "not idempotent: " << gv::show(again) << ", " << ctx);
  }
}

// an integer under a float range and a float under an integer range
VF_PROP(mixed_scalar, 200000, 3000000)
{
  const bool int_value = c.coin();
  const int m = c.draw(6);
  Range r;
  double v;
  if (int_value)
  {
    r = gen_range(c, MV::FLOAT);
    v = (double)c.range(-100000, 100000);
    if (c.coin())
      v = (double)c.range(-30, 30);
  }
  else
  {
    r = gen_range(c, MV::INT);
    v = (float)std::min(1e9, std::max(-1e9, near_range(c, MV::INT, r) + (double)c.range(-3, 3) / 4));
    r.lo = (int)r.lo;
    r.hi = (int)r.hi;
  }
  const MV mv = mk(int_value ? MV::INT : MV::FLOAT, v);
  const std::string ctx = gv::show(mv) + " " + MNAME[m] + " " + show(r);
  VF_NOTE(ctx);
  c.nontrivial(outside(v, r));
  const auto d = int_value ? scalar_domain<float>(r) : scalar_domain<int32_t>(r);
  const auto got = apply_both(d, MODES[m], gv::to_value(mv), ctx);
  VF_CHECK(got.get_type() == gv::vt(mv.t), "type changed: " << gv::show(got) << ", " << ctx);
  if (m == 5)
  {
    VF_CHECK(gv::matches(got, mv), "changed by free bounding: " << gv::show(got) << ", " << ctx);
    return;
  }
  if (!int_value)
  {
    // the integer part is bounded
    auto a = ref(m, std::trunc(v), r, false);
    VF_CHECK(
        ok(num(got), {(double)(float)a.a, (double)(float)a.b, 0}),
        "got " << gv::show(got) << ", expected " << a.a << ", " << ctx);
  }
  else
  {
    auto a = ref(m, v, r, true);
    const double g = num(got);
    const bool near_ = a.any_in_range
                           ? g >= a.a - a.tol - 1 && g <= a.b + a.tol + 1
                           : (std::abs(g - a.a) < 1 + a.tol && std::abs(g) <= std::abs(a.a) + a.tol)
                                 || (std::abs(g - a.b) < 1 + a.tol
                                     && std::abs(g) <= std::abs(a.b) + a.tol);
    if (std::abs(a.a) < 1e9 && std::abs(a.b) < 1e9)
      VF_CHECK(near_, "got " << gv::show(got) << ", expected the integer part of " << a.a << ", " << ctx);
  }
}

template <std::size_t N>
static void vec_case(vf::Case& c)
{
  const int m = c.draw(6);
  std::array<float, N> v;
  Range r[N];
  ossia::domain d;
  const int kind = c.draw(5);
  std::string ctx = MNAME[m];
  auto setup = [&](auto gen_one) {
    for (std::size_t i = 0; i < N; i++)
      gen_one(i);
  };
  switch (kind)
  {
    case 0: // one float range for all
    {
      Range x = gen_range(c, MV::FLOAT);
      setup([&](std::size_t i) { r[i] = x; });
      d = scalar_domain<float>(x);
      break;
    }
    case 1: // one integer range for all
    {
      Range x = gen_range(c, MV::INT);
      x.lo = (int)c.range(-60, 0);
      x.hi = (int)c.range(1, 60);
      setup([&](std::size_t i) { r[i] = x; });
      d = scalar_domain<int32_t>(x);
      break;
    }
    case 2: // character range
    {
      Range x = gen_range(c, MV::CHAR);
      setup([&](std::size_t i) { r[i] = x; });
      d = scalar_domain<char>(x);
      break;
    }
    case 3: // per component
    {
      ossia::vecf_domain<N> dom;
      setup([&](std::size_t i) {
        r[i] = gen_range(c, MV::FLOAT);
        if (r[i].has_lo)
          dom.min[i] = (float)r[i].lo;
        if (r[i].has_hi)
          dom.max[i] = (float)r[i].hi;
      });
      d = dom;
      break;
    }
    default: // per component, given as lists
    {
      ossia::vector_domain dom;
      setup([&](std::size_t i) {
        r[i] = gen_range(c, MV::FLOAT);
        dom.min.push_back(r[i].has_lo ? ossia::value{(float)r[i].lo} : ossia::value{});
        dom.max.push_back(r[i].has_hi ? ossia::value{(float)r[i].hi} : ossia::value{});
      });
      if (c.chance(1, 3)) // shorter lists: no bound past their end
      {
        const std::size_t k = c.draw(N + 1);
        dom.min.resize(k);
        for (std::size_t i = k; i < N; i++)
          r[i].has_lo = false;
      }
      if (c.chance(1, 3))
      {
        const std::size_t k = c.draw(N + 1);
        dom.max.resize(k);
        for (std::size_t i = k; i < N; i++)
          r[i].has_hi = false;
      }
      d = dom;
      break;
    }
  }
  bool out = false;
  for (std::size_t i = 0; i < N; i++)
  {
    v[i] = (float)near_range(c, MV::FLOAT, r[i]);
    out |= outside(v[i], r[i]);
    std::ostringstream o;
    o.precision(9);
    o << " " << v[i] << show(r[i]);
    ctx += o.str();
  }
  VF_NOTE(kind << " " << ctx);
  c.nontrivial(out);
  const auto got = apply_both(d, MODES[m], ossia::value{v}, ctx);
  auto p = got.target<std::array<float, N>>();
  VF_CHECK(p, "not a vector any more: " << gv::show(got) << ", " << ctx);
  for (std::size_t i = 0; i < N; i++)
  {
    auto a = ref(m, v[i], r[i], true);
    VF_CHECK(
        ok((*p)[i], a), "component " << i << " is " << (*p)[i] << ", expected " << a.a << " or "
                                     << a.b << ", kind " << kind << " " << ctx);
  }
}
VF_PROP(vectors, 250000, 4000000)
{
  switch (c.draw(3))
  {
    case 0:
      return vec_case<2>(c);
    case 1:
      return vec_case<3>(c);
    default:
      return vec_case<4>(c);
  }
}

VF_PROP(lists, 250000, 4000000)
{
  static const MV::T TS[] = {MV::INT, MV::FLOAT, MV::CHAR};
  const int m = c.draw(6);
  const int n = (int)c.range(0, 6);
  std::vector<ossia::value> in;
  std::vector<Range> r;
  std::vector<MV> mv;
  ossia::domain d;
  const int kind = c.draw(3);
  std::string ctx = MNAME[m];
  const MV::T dt = TS[c.draw(3)];
  const Range one = gen_range(c, dt);
  ossia::vector_domain vd;
  for (int i = 0; i < n; i++)
  {
    MV::T t = c.chance(3, 4) && kind != 2 ? dt : TS[c.draw(3)];
    const bool odd = c.chance(1, 8);
    if (kind == 2)
    {
      r.push_back(gen_range(c, t));
      vd.min.push_back(r[i].has_lo ? gv::to_value(mk(t, r[i].lo)) : ossia::value{});
      vd.max.push_back(r[i].has_hi ? gv::to_value(mk(t, r[i].hi)) : ossia::value{});
    }
    else
    {
      r.push_back(one);
      if (t != dt) // elements of another type are left alone
        r[i].has_lo = r[i].has_hi = false;
    }
    MV x = mk(t, near_range(c, t, r[i]));
    if (odd)
    {
      x = MV{};
      x.t = MV::STRING;
      x.s = c.str(3);
    }
    mv.push_back(x);
    in.push_back(gv::to_value(x));
    ctx += " " + gv::show(x) + show(r[i]);
  }
  if (kind == 0)
    d = dom_of(dt, one);
  else if (kind == 1)
  {
    ossia::domain_base<ossia::value> g;
    if (one.has_lo)
      g.min = gv::to_value(mk(dt, one.lo));
    if (one.has_hi)
      g.max = gv::to_value(mk(dt, one.hi));
    d = g;
  }
  else
  {
    if (c.chance(1, 4) && n)
    {
      const int k = c.draw(n + 1);
      vd.max.resize(k);
      for (int i = k; i < n; i++)
        r[i].has_hi = false;
    }
    if (c.chance(1, 4) && n)
    {
      const int k = c.draw(n + 1);
      vd.min.resize(k);
      for (int i = k; i < n; i++)
        r[i].has_lo = false;
    }
    d = vd;
  }
  ctx += " kind " + std::to_string(kind);
  VF_NOTE(ctx);
  const auto got = apply_both(d, MODES[m], ossia::value{in}, ctx);
  auto p = got.target<std::vector<ossia::value>>();
  VF_CHECK(p && (int)p->size() == n, "list became " << gv::show(got) << ", " << ctx);
  bool out = false;
  for (int i = 0; i < n; i++)
  {
    if (mv[i].t == MV::STRING)
    {
      VF_CHECK(gv::matches((*p)[i], mv[i]), "text in a list changed: " << gv::show(got) << ", " << ctx);
      continue;
    }
    const double x = num(in[i]);
    out |= outside(x, r[i]);
    VF_CHECK(
        (*p)[i].get_type() == in[i].get_type(), "element " << i << " changed type: "
                                                           << gv::show(got) << ", " << ctx);
    auto a = ref(m, x, r[i], mv[i].t == MV::FLOAT);
    VF_CHECK(
        ok(num((*p)[i]), a), "element " << i << " is " << gv::show((*p)[i]) << ", expected "
                                        << a.a << " or " << a.b << ", " << ctx);
  }
  c.nontrivial(out);
}

// the free functions on two bounds
VF_PROP(functions, 150000, 2000000)
{
  static const MV::T TS[] = {MV::INT, MV::FLOAT, MV::CHAR};
  const MV::T t = TS[c.draw(3)];
  Range r = gen_range(c, t);
  r.has_lo = r.has_hi = true;
  const double v = near_range(c, t, r);
  const auto x = gv::to_value(mk(t, v)), lo = gv::to_value(mk(t, r.lo)),
             hi = gv::to_value(mk(t, r.hi));
  const double xv = num(x);
  const int m = c.draw(5);
  const std::string ctx = gv::show(x) + " " + MNAME[m] + " " + show(r);
  VF_NOTE(ctx);
  c.nontrivial(outside(xv, r));
  ossia::value got, got2;
  switch (m)
  {
    case 0:
      got = ossia::clamp(x, lo, hi);
      got2 = ossia::clamp(ossia::value{x}, lo, hi);
      break;
    case 1:
      got = ossia::wrap(x, lo, hi);
      got2 = ossia::wrap(ossia::value{x}, lo, hi);
      break;
    case 2:
      got = ossia::fold(x, lo, hi);
      got2 = ossia::fold(ossia::value{x}, lo, hi);
      break;
    case 3:
      got = ossia::clamp_min(x, lo);
      got2 = ossia::clamp_min(ossia::value{x}, lo);
      break;
    default:
      got = ossia::clamp_max(x, hi);
      got2 = ossia::clamp_max(ossia::value{x}, hi);
      break;
  }
  auto a = ref(m, xv, r, t == MV::FLOAT);
  VF_CHECK(got.get_type() == gv::vt(t), "type changed, " << ctx);
  VF_CHECK(ok(num(got), a), "got " << gv::show(got) << ", expected " << a.a << " or " << a.b << ", " << ctx);
  VF_CHECK(gv::matches(got2, gv::from_value(got)), "temporary differs, " << ctx);
}
