// C07: converting between units of one dataspace preserves the physical quantity.
#include "gen_value.hpp"

#include <ossia/network/dataspace/dataspace.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/dataspace/value_with_unit.hpp>
#include <ossia/network/value/value.hpp>

using gv::MV;
const char* const vf::rule
    = "(quantity, unit, unit) triples in the eight dataspaces, chains of units; "
      "non-trivial: the units differ";

typedef std::array<double, 4> D4;
static const double PI = 3.14159265358979323846;

// How far a unit's values can be trusted to identify a quantity.
struct U
{
  const char* name;
  ossia::unit_t unit;
  int n; // components
  D4 (*to)(D4);
  D4 (*from)(D4);
  // bits: 1 = loses part of the neutral value; 2: only positive; 4: angles
  // 8: unit values from the neutral are exact only in range
  int flags;
  int angle_mask;
};
enum
{
  LOSSY = 1
};

static D4 id(D4 v) { return v; }
#define SCALED(NAME, K)                                                  \
  static D4 to_##NAME(D4 v) { return {v[0] * (K), 0, 0, 0}; }            \
  static D4 from_##NAME(D4 v) { return {v[0] / (K), 0, 0, 0}; }
SCALED(km, 1000.)
SCALED(dm, 0.1)
SCALED(cm, 0.01)
SCALED(mm, 0.001)
SCALED(um, 1e-6)
SCALED(nm, 1e-9)
SCALED(pm, 1e-12)
SCALED(inch, 0.0254)
SCALED(foot, 0.3048)
SCALED(mile, 1609.344)
SCALED(mph, 0.44704)
SCALED(kmh, 1. / 3.6)
SCALED(knot, 1852. / 3600.)
SCALED(fps, 0.3048)
SCALED(fph, 0.3048 / 3600.)
SCALED(deg, PI / 180.)
SCALED(ms, 0.001)

static D4 one(double x) { return {x, 0, 0, 0}; }
static D4 recip60(D4 v) { return one(60. / v[0]); }
static D4 recip(D4 v) { return one(1. / v[0]); }
static D4 to_bark(D4 v) { return one(1. / (600. * std::sinh(v[0] / 6.))); }
static D4 from_bark(D4 v) { return one(6. * std::asinh(1. / (v[0] * 600.))); }
static D4 to_cent(D4 v) { return one(1. / (440. * std::exp2((v[0] - 6900.) / 1200.))); }
static D4 from_cent(D4 v) { return one(6900. - 1200. * std::log2(440. * v[0])); }
static D4 to_mel(D4 v) { return one(1. / (700. * (std::pow(10., v[0] / 2595.) - 1.))); }
static D4 from_mel(D4 v) { return one(2595. * std::log10(1. + 1. / (700. * v[0]))); }
static D4 to_midi(D4 v) { return one(1. / (440. * std::exp2((v[0] - 69.) / 12.))); }
static D4 from_midi(D4 v) { return one(69. - 12. * std::log2(440. * v[0])); }
static D4 speed(D4 v) { return one(std::exp2(69. / 12.) / (440. * v[0])); }

static double db2lin(double d) { return std::pow(10., d / 20.); }
static D4 to_db(D4 v) { return one(v[0] <= -96. ? 0. : db2lin(v[0])); }
static D4 from_db(D4 v)
{
  return one(v[0] <= 0. ? -96. : std::max(-96., 20. * std::log10(v[0])));
}
static D4 to_dbraw(D4 v) { return one(db2lin(v[0])); }
static D4 from_dbraw(D4 v) { return one(20. * std::log10(v[0])); }
// Jamoma's curve: 100 is 0 dB, 127 is +12 dB
static const double MIDIPOW = std::log(1. + 12. / 96.) / std::log(1.27);
static D4 to_mg(D4 v)
{
  if (v[0] <= 0.)
    return one(0.);
  return to_db(one(96. * (std::pow(v[0] / 100., MIDIPOW) - 1.)));
}
static D4 from_mg(D4 v)
{
  const double db = 20. * std::log10(v[0]);
  if (v[0] <= 0. || db <= -96.)
    return one(0.);
  return one(100. * std::pow(1. + db / 96., 1. / MIDIPOW));
}

// position (neutral x y z)
static D4 to_c2(D4 v) { return {v[0], v[1], 0, 0}; }
static D4 from_c2(D4 v) { return {v[0], v[1], 0, 0}; }
static D4 to_gl(D4 v) { return {v[0], -v[2], v[1], 0}; }
static D4 from_gl(D4 v) { return {v[0], v[2], -v[1], 0}; }
static D4 to_polar(D4 v)
{
  const double a = v[0] * PI / 180.;
  return {std::sin(a) * v[1], std::cos(a) * v[1], 0, 0};
}
static D4 from_polar(D4 v)
{
  return {std::atan2(v[0], v[1]) * 180. / PI, std::hypot(v[0], v[1]), 0, 0};
}
static D4 to_sph(D4 v)
{
  const double a = v[0] * PI / 180., e = v[1] * PI / 180.;
  return {std::sin(a) * std::cos(e) * v[2], std::cos(a) * std::cos(e) * v[2],
          std::sin(e) * v[2], 0};
}
static D4 from_sph(D4 v)
{
  const double h = std::hypot(v[0], v[1]);
  return {std::atan2(v[0], v[1]) * 180. / PI, std::atan2(v[2], h) * 180. / PI,
          std::hypot(h, v[2]), 0};
}
static D4 to_cyl(D4 v)
{
  const double a = v[1] * PI / 180.;
  return {std::sin(a) * v[0], std::cos(a) * v[0], v[2], 0};
}
static D4 from_cyl(D4 v)
{
  return {std::hypot(v[0], v[1]), std::atan2(v[0], v[1]) * 180. / PI, v[2], 0};
}

// colour (neutral a r g b)
static D4 to_rgba(D4 v) { return {v[3], v[0], v[1], v[2]}; }
static D4 from_rgba(D4 v) { return {v[1], v[2], v[3], v[0]}; }
static D4 mul(D4 v, double k) { return {v[0] * k, v[1] * k, v[2] * k, v[3] * k}; }
static D4 to_rgba8(D4 v) { return to_rgba(mul(v, 1 / 255.)); }
static D4 from_rgba8(D4 v) { return mul(from_rgba(v), 255.); }
static D4 to_argb8(D4 v) { return mul(v, 1 / 255.); }
static D4 from_argb8(D4 v) { return mul(v, 255.); }
static D4 to_rgb(D4 v) { return {1, v[0], v[1], v[2]}; }
static D4 from_rgb(D4 v) { return {v[1], v[2], v[3], 0}; }
static D4 to_bgr(D4 v) { return {1, v[2], v[1], v[0]}; }
static D4 from_bgr(D4 v) { return {v[3], v[2], v[1], 0}; }
static D4 to_cmy8(D4 v) { return {1, 1 - v[0] / 255., 1 - v[1] / 255., 1 - v[2] / 255.}; }
static D4 from_cmy8(D4 v)
{
  return {255. * (1 - v[1]), 255. * (1 - v[2]), 255. * (1 - v[3]), 0};
}
static D4 to_hsv(D4 v)
{
  // piecewise linear hue circle
  auto f = [&](double n) {
    double k = std::fmod(n + v[0] * 6., 6.);
    if (k < 0)
      k += 6;
    return v[2] - v[2] * v[1] * std::max(0., std::min({k, 4. - k, 1.}));
  };
  return {1, f(5), f(3), f(1)};
}
static D4 from_hsv(D4 v)
{
  const double r = v[1], g = v[2], b = v[3];
  const double M = std::max({r, g, b}), m = std::min({r, g, b}), d = M - m;
  if (d == 0.)
    return {0, 0, M, 0};
  double h = M == r ? (g - b) / d : M == g ? 2. + (b - r) / d : 4. + (r - g) / d;
  h /= 6.;
  if (h < 0)
    h += 1.;
  return {h, d / M, M, 0};
}
static double srgb_lin(double v)
{
  return v > 0.04045 ? std::pow((v + 0.055) / 1.055, 2.4) : v / 12.92;
}
static double lin_srgb(double v)
{
  return v > 0.0031308 ? 1.055 * std::pow(v, 1 / 2.4) - 0.055 : v * 12.92;
}
static D4 to_xyz(D4 v)
{
  const double x = v[0] / 100, y = v[1] / 100, z = v[2] / 100;
  return {1, lin_srgb(3.2406 * x - 1.5372 * y - 0.4986 * z),
          lin_srgb(-0.9689 * x + 1.8758 * y + 0.0415 * z),
          lin_srgb(0.0557 * x - 0.2040 * y + 1.0570 * z)};
}
static D4 from_xyz(D4 v)
{
  const double r = 100 * srgb_lin(v[1]), g = 100 * srgb_lin(v[2]),
               b = 100 * srgb_lin(v[3]);
  return {r * 0.4124 + g * 0.3576 + b * 0.1805, r * 0.2126 + g * 0.7152 + b * 0.0722,
          r * 0.0193 + g * 0.1192 + b * 0.9505, 0};
}

// orientation (neutral quaternion x y z w)
static D4 qmul(D4 a, D4 b)
{
  return {a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
          a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
          a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
          a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]};
}
static D4 to_euler(D4 v)
{
  const double y = -v[0] * PI / 360, p = v[1] * PI / 360, r = v[2] * PI / 360;
  return qmul(qmul({0, 0, std::sin(y), std::cos(y)}, {std::sin(p), 0, 0, std::cos(p)}),
              {0, std::sin(r), 0, std::cos(r)});
}
static D4 to_axis(D4 v)
{
  const double a = v[3] * PI / 360;
  const double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
  const double k = n > 0 ? std::sin(a) / n : 0;
  return {v[0] * k, v[1] * k, v[2] * k, std::cos(a)};
}

static const std::vector<U> DISTANCE{
    {"m", ossia::meter_u{}, 1, id, id},
    {"km", ossia::kilometer_u{}, 1, to_km, from_km},
    {"dm", ossia::decimeter_u{}, 1, to_dm, from_dm},
    {"cm", ossia::centimeter_u{}, 1, to_cm, from_cm},
    {"mm", ossia::millimeter_u{}, 1, to_mm, from_mm},
    {"um", ossia::micrometer_u{}, 1, to_um, from_um},
    {"nm", ossia::nanometer_u{}, 1, to_nm, from_nm},
    {"pm", ossia::picometer_u{}, 1, to_pm, from_pm},
    {"inch", ossia::inch_u{}, 1, to_inch, from_inch},
    {"foot", ossia::foot_u{}, 1, to_foot, from_foot},
    {"mile", ossia::mile_u{}, 1, to_mile, from_mile}};
static const std::vector<U> SPEED{
    {"m/s", ossia::meter_per_second_u{}, 1, id, id},
    {"mph", ossia::miles_per_hour_u{}, 1, to_mph, from_mph},
    {"km/h", ossia::kilometer_per_hour_u{}, 1, to_kmh, from_kmh},
    {"kn", ossia::knot_u{}, 1, to_knot, from_knot},
    {"ft/s", ossia::foot_per_second_u{}, 1, to_fps, from_fps},
    {"ft/h", ossia::foot_per_hour_u{}, 1, to_fph, from_fph}};
static const std::vector<U> ANGLE{
    {"rad", ossia::radian_u{}, 1, id, id},
    {"deg", ossia::degree_u{}, 1, to_deg, from_deg}};
static const std::vector<U> TIME{
    {"s", ossia::second_u{}, 1, id, id},
    {"bark", ossia::bark_u{}, 1, to_bark, from_bark},
    {"bpm", ossia::bpm_u{}, 1, recip60, recip60},
    {"cents", ossia::cent_u{}, 1, to_cent, from_cent},
    {"Hz", ossia::frequency_u{}, 1, recip, recip},
    {"mel", ossia::mel_u{}, 1, to_mel, from_mel},
    {"midinote", ossia::midi_pitch_u{}, 1, to_midi, from_midi},
    {"ms", ossia::millisecond_u{}, 1, to_ms, from_ms},
    {"speed", ossia::playback_speed_u{}, 1, speed, speed}};
static const std::vector<U> GAIN{
    {"linear", ossia::linear_u{}, 1, id, id},
    {"midigain", ossia::midigain_u{}, 1, to_mg, from_mg},
    {"db", ossia::decibel_u{}, 1, to_db, from_db},
    {"db-raw", ossia::decibel_raw_u{}, 1, to_dbraw, from_dbraw}};
static const std::vector<U> POSITION{
    {"cart3D", ossia::cartesian_3d_u{}, 3, id, id},
    {"cart2D", ossia::cartesian_2d_u{}, 2, to_c2, from_c2, LOSSY},
    {"spherical", ossia::spherical_u{}, 3, to_sph, from_sph, 0, 3},
    {"polar", ossia::polar_u{}, 2, to_polar, from_polar, LOSSY, 1},
    {"openGL", ossia::opengl_u{}, 3, to_gl, from_gl},
    {"cylindrical", ossia::cylindrical_u{}, 3, to_cyl, from_cyl, 0, 2}};
static const std::vector<U> COLOR{
    {"argb", ossia::argb_u{}, 4, id, id},
    {"rgba", ossia::rgba_u{}, 4, to_rgba, from_rgba},
    {"rgb", ossia::rgb_u{}, 3, to_rgb, from_rgb, LOSSY},
    {"bgr", ossia::bgr_u{}, 3, to_bgr, from_bgr, LOSSY},
    {"argb8", ossia::argb8_u{}, 4, to_argb8, from_argb8},
    {"rgba8", ossia::rgba8_u{}, 4, to_rgba8, from_rgba8},
    {"hsv", ossia::hsv_u{}, 3, to_hsv, from_hsv, LOSSY},
    {"cmy8", ossia::cmy8_u{}, 3, to_cmy8, from_cmy8, LOSSY},
    {"cie_xyz", ossia::xyz_u{}, 3, to_xyz, from_xyz, LOSSY}};
static const std::vector<U>* const SPACES[]
    = {&DISTANCE, &SPEED, &ANGLE, &TIME, &GAIN, &POSITION, &COLOR};
enum { S_DIST, S_SPEED, S_ANGLE, S_TIME, S_GAIN, S_POS, S_COL, S_COUNT };

static ossia::value mk(int n, const D4& v)
{
  switch (n)
  {
    case 1:
      return ossia::value{(float)v[0]};
    case 2:
      return ossia::value{ossia::make_vec((float)v[0], (float)v[1])};
    case 3:
      return ossia::value{ossia::make_vec((float)v[0], (float)v[1], (float)v[2])};
    default:
      return ossia::value{
          ossia::make_vec((float)v[0], (float)v[1], (float)v[2], (float)v[3])};
  }
}
static D4 rd(int n, const ossia::value& v, bool& ok)
{
  D4 r{};
  ok = false;
  if (n == 1)
  {
    if (auto p = v.target<float>())
      r[0] = *p, ok = true;
  }
  else if (n == 2)
  {
    if (auto p = v.target<ossia::vec2f>())
      r = {(*p)[0], (*p)[1], 0, 0}, ok = true;
  }
  else if (n == 3)
  {
    if (auto p = v.target<ossia::vec3f>())
      r = {(*p)[0], (*p)[1], (*p)[2], 0}, ok = true;
  }
  else if (auto p = v.target<ossia::vec4f>())
    r = {(*p)[0], (*p)[1], (*p)[2], (*p)[3]}, ok = true;
  return r;
}
static std::string show(int n, const D4& v)
{
  std::ostringstream s;
  s.precision(9);
  for (int i = 0; i < n; i++)
    s << (i ? " " : "") << v[i];
  return "[" + s.str() + "]";
}
static D4 f32(D4 v)
{
  for (auto& x : v)
    x = (double)(float)x;
  return v;
}

// A sensible quantity of the space, expressed in the neutral unit
static D4 neutral(vf::Case& c, int space)
{
  auto u = [&](double lo, double hi) { return lo + (hi - lo) * c.unit_interval(); };
  switch (space)
  {
    case S_DIST:
    case S_SPEED:
      return one((c.coin() ? 1. : -1.) * (c.chance(1, 8) ? 0. : u(0.001, 5000.)));
    case S_ANGLE:
      return one(u(-20., 20.));
    case S_TIME: // 16 Hz .. 10 kHz
      return one(1. / std::exp2(u(4., 13.3)));
    case S_GAIN: // -90 dB .. 12 dB, and silence
      return one(db2lin(u(-90., 12.)));
    case S_POS: {
      const double r = u(0.5, 20.), a = u(-PI, PI), e = u(-1.4, 1.4);
      return {r * std::cos(e) * std::sin(a), r * std::cos(e) * std::cos(a),
              r * std::sin(e), 0};
    }
    default: {
      static const double lv[] = {0, 1, 0.5, 0.04, 0.25};
      D4 v;
      for (auto& x : v)
        x = c.chance(1, 3) ? c.pick(lv) : u(0, 1);
      return v;
    }
  }
}

// Reference conversion with an error bound from perturbing inputs and the
// intermediate neutral value by a few float ulps.
struct Ref
{
  D4 v, tol;
};
static double angdiff(double a, double b)
{
  double d = std::fmod(a - b, 360.);
  if (d > 180)
    d -= 360;
  if (d < -180)
    d += 360;
  return std::abs(d);
}
static double dist(const U& u, int i, double a, double b, bool hue)
{
  if (u.angle_mask & (1 << i))
    return angdiff(a, b);
  double d = std::abs(a - b);
  if (hue && i == 0)
    d = std::min(d, std::abs(1. - d));
  return d;
}
static Ref reference(const U& a, const U& b, const D4& in)
{
  const bool hue = std::string(b.name) == "hsv";
  Ref r;
  const D4 nv = a.to(in);
  r.v = b.from(nv);
  r.tol = {};
  for (int i = 0; i < 4; i++)
    r.tol[i] = 3e-6 * std::abs(r.v[i]) + 1e-30;
  auto pert = [&](const D4& x) {
    for (int i = 0; i < b.n; i++)
    {
      const double d = dist(b, i, x[i], r.v[i], hue);
      r.tol[i] += std::isfinite(d) ? 2 * d : 1e9;
    }
  };
  double scale = 0;
  for (int i = 0; i < 4; i++)
    scale = std::max(scale, std::abs(nv[i]));
  for (int i = 0; i < 4; i++)
    for (double s : {-1., 1.})
    {
      D4 m = nv;
      m[i] += s * (4e-7 * (a.n > 1 ? scale : std::abs(m[i])));
      pert(b.from(m));
      D4 x = in;
      x[i] += s * 4e-7 * std::abs(x[i]);
      pert(b.from(a.to(x)));
    }
  return r;
}

static bool close(const U& b, const Ref& r, const D4& got, int& bad)
{
  const bool hue = std::string(b.name) == "hsv";
  for (int i = 0; i < b.n; i++)
    if (!(dist(b, i, got[i], r.v[i], hue) <= r.tol[i]))
    {
      bad = i;
      return false;
    }
  return true;
}

VF_PROP(reference, 120000, 2000000)
{
  const int sp = (int)c.draw(S_COUNT);
  auto& us = *SPACES[sp];
  const U& a = us[c.draw(us.size())];
  const U& b = us[c.draw(us.size())];
  D4 in = f32(a.from(neutral(c, sp)));
  if (sp == S_GAIN && c.chance(1, 8))
    in = std::string(a.name) == "db-raw" ? one(-80) : std::string(a.name) == "db" ? one(-c.range(90, 130)) : one(0.);
  // angles one or more turns away, elevations stay put
  if (sp == S_POS && a.angle_mask)
    in[a.angle_mask == 2 ? 1 : 0] += 360. * (double)c.range(-1, 1);
  in = f32(in);
  c.nontrivial(&a != &b);
  c.label(a.name);
  const bool silent = sp == S_GAIN && a.to(in)[0] <= 1.6e-5;
  if (silent && std::string(b.name) == "db-raw" && &a != &b)
    return; // minus infinity
  ossia::value got;
  switch (c.draw(3))
  {
    case 0:
      got = ossia::convert(mk(a.n, in), a.unit, b.unit);
      break;
    case 1:
      got = ossia::to_value(ossia::convert(ossia::make_value(mk(a.n, in), a.unit), b.unit));
      break;
    default: {
      auto r = ossia::convert(ossia::make_value(mk(a.n, in), a.unit), b.unit);
      if (ossia::to_unit(r) != b.unit)
        VF_FAIL("converting " << show(a.n, in) << " " << a.name << " to " << b.name
                              << " gives another unit");
      got = ossia::to_value(r);
    }
  }
  bool ok;
  const D4 g = rd(b.n, got, ok);
  if (!ok)
    VF_FAIL("converting " << show(a.n, in) << " " << a.name << " to " << b.name
                          << " gives a value of the wrong type");
  VF_NOTE(show(a.n, in) << " " << a.name << " -> " << show(b.n, g) << " " << b.name);
  if (&a == &b)
  {
    if (g != in)
      VF_FAIL("converting " << a.name << " to itself changes " << show(a.n, in) << " to "
                            << show(b.n, g));
    return;
  }
  Ref r = reference(a, b, in);
  if (sp == S_GAIN && std::string(b.name) == "midigain")
  {
    const double db = 20. * std::log10(a.to(in)[0]);
    if (db < -95.9)
      return; // the curve is vertical there
  }
  int bad;
  if (!close(b, r, g, bad))
    VF_FAIL(show(a.n, in) << " " << a.name << " converted to " << b.name << " gives "
                          << show(b.n, g) << ", expected " << show(b.n, r.v)
                          << " (component " << bad << ", tolerance " << r.tol[bad] << ")");
}

VF_PROP(round_trip, 80000, 1500000)
{
  const int sp = (int)c.draw(S_COUNT);
  auto& us = *SPACES[sp];
  const U& a = us[c.draw(us.size())];
  // keep what the starting unit can express
  D4 n0 = neutral(c, sp);
  if (a.flags & LOSSY)
    n0 = a.to(a.from(n0));
  if (sp == S_COL && std::string(a.name) == "hsv")
    for (auto& x : n0)
      x = 0.05 + 0.9 * x;
  const D4 in = f32(a.from(n0));
  ossia::value v = mk(a.n, in);
  const U* cur = &a;
  std::string path = a.name;
  const int steps = 1 + (int)c.draw(4);
  for (int i = 0; i < steps; i++)
  {
    const U& b = us[c.draw(us.size())];
    // a unit that loses information is no way point
    if ((b.flags & LOSSY) && !(a.flags & LOSSY))
      continue;
    if (sp == S_POS && (b.flags & LOSSY) != (a.flags & LOSSY) && (b.flags & LOSSY))
      continue;
    v = ossia::convert(v, cur->unit, b.unit);
    cur = &b;
    path += std::string(" -> ") + b.name;
  }
  v = ossia::convert(v, cur->unit, a.unit);
  path += std::string(" -> ") + a.name;
  c.nontrivial(cur != &a);
  bool ok;
  const D4 g = rd(a.n, v, ok);
  VF_NOTE(path << ": " << show(a.n, in) << " -> " << show(a.n, g));
  if (!ok)
    VF_FAIL(path << ": the value changed type");
  // compare the physical quantity
  const D4 p = a.to(in), q = a.to(g);
  double scale = 0;
  for (double x : p)
    scale = std::max(scale, std::abs(x));
  const double tol = (sp == S_COL ? 2e-2 : sp == S_TIME || sp == S_GAIN ? 2e-4 : 2e-5);
  // CIE xyz uses 4-digit matrices; everything else is tight
  const bool xyz = path.find("xyz") != std::string::npos;
  const double t = sp == S_COL && !xyz ? 2e-5 : tol;
  for (int i = 0; i < 4; i++)
    if (!(std::abs(p[i] - q[i]) <= t * (scale + (xyz ? 1 : 0)) + 1e-12))
      VF_FAIL(path << ": " << show(a.n, in) << " comes back as " << show(a.n, g));
}

// Orientation: rotations, compared as rotations
VF_PROP(orientation, 60000, 1000000)
{
  auto rot_eq = [](const D4& a, const D4& b) {
    double dot = 0;
    for (int i = 0; i < 4; i++)
      dot += a[i] * b[i];
    double e = 0;
    for (int i = 0; i < 4; i++)
      e = std::max(e, std::abs(a[i] - (dot < 0 ? -b[i] : b[i])));
    return e;
  };
  const ossia::unit_t Q = ossia::quaternion_u{}, E = ossia::euler_u{}, A = ossia::axis_u{};
  auto u = [&](double lo, double hi) { return lo + (hi - lo) * c.unit_interval(); };
  const int src = (int)c.draw(3);
  D4 in{}, q{};
  int n = 4;
  ossia::unit_t su = Q;
  if (src == 0)
  {
    for (auto& x : in)
      x = u(-1, 1);
    double l = 0;
    for (auto& x : in)
      l += x * x;
    l = std::sqrt(l);
    if (l < 0.1)
    {
      in = {0, 0, 0, 1};
      l = 1;
    }
    for (auto& x : in)
      x /= l;
    in = f32(in);
    q = in;
  }
  else if (src == 1)
  {
    in = f32({u(-170, 170), u(-85, 85), u(-170, 170), 0});
    q = to_euler(in);
    n = 3;
    su = E;
  }
  else
  {
    in = f32({u(-2, 2), u(-2, 2), u(-2, 2), u(-170, 170)});
    if (in[0] * in[0] + in[1] * in[1] + in[2] * in[2] < 0.01)
      in[2] = 1;
    q = to_axis(in);
    su = A;
  }
  const int dst = (int)c.draw(3);
  c.nontrivial(src != dst);
  const ossia::unit_t du = dst == 0 ? Q : dst == 1 ? E : A;
  const int dn = dst == 1 ? 3 : 4;
  const auto v = ossia::convert(mk(n, in), su, du);
  bool ok;
  const D4 g = rd(dn, v, ok);
  if (!ok)
    VF_FAIL("orientation conversion gives a value of the wrong type");
  VF_NOTE(show(n, in) << " (" << src << ") -> " << show(dn, g) << " (" << dst << ")");
  // near the poles yaw and roll are not separable, near identity the axis is noise
  if (dst == 1 && std::abs(2. * (q[3] * q[0] + q[1] * q[2])) > 0.9999)
    return;
  const double tol = dst == 2 ? 4e-3 : 2e-4;
  const D4 gq = dst == 0 ? g : dst == 1 ? to_euler(g) : to_axis(g);
  if (!(rot_eq(q, gq) <= tol))
    VF_FAIL("orientation " << show(n, in) << " (" << (src == 0 ? "quaternion" : src == 1 ? "euler" : "axis")
                           << ") becomes " << show(dn, g) << " ("
                           << (dst == 0 ? "quaternion" : dst == 1 ? "euler" : "axis")
                           << "), another rotation: " << show(4, q) << " / " << show(4, gq));
}

VF_PROP(across_dataspaces, 20000, 200000)
{
  const int s1 = (int)c.draw(S_COUNT), s2 = (int)c.draw(S_COUNT);
  const U& a = c.pick(*SPACES[s1]);
  const U& b = c.pick(*SPACES[s2]);
  const D4 in = f32(a.from(neutral(c, s1)));
  if (ossia::check_units_convertible(a.unit, b.unit) != (s1 == s2))
    VF_FAIL(a.name << " and " << b.name << ": wrong answer from check_units_convertible");
  if (s1 == s2)
    return;
  c.nontrivial();
  if (ossia::convert(mk(a.n, in), a.unit, b.unit).valid())
    VF_FAIL("converting " << a.name << " to " << b.name << " gives a value");
  // no unit on one side: the value is kept
  if (ossia::convert(mk(a.n, in), a.unit, ossia::unit_t{}) != mk(a.n, in))
    VF_FAIL("converting " << a.name << " to no unit changes the value");
}
