// C23: durations: arithmetic, order, infinity, conversion to samples.
#include "vf.hpp"

#include <ossia/editor/scenario/time_signature.hpp>
#include <ossia/editor/scenario/time_value.hpp>

using ossia::time_value;
const char* const vf::rule
    = "pairs and histories of durations, negative, huge and infinite included; "
      "non-trivial: two different durations, or a negative or infinite one";

static const int64_t INF = time_value::infinite_min;
typedef __int128 W;
static int64_t gen_t(vf::Case& c)
{
  switch (c.draw(8))
  {
    case 0:
    case 1:
      return c.range(-20, 20);
    case 2:
    case 3:
      return c.range(-(1ll << 40), 1ll << 40);
    case 4:
      return c.range(-(INF / 2), INF / 2);
    case 5:
      return c.pick<int64_t>({INF - 1, INF - 2, -(INF - 1), INF / 2, INF / 2 + 1, -(INF / 2)});
    case 6:
      return c.range(0, 705600000ll * 100);
    default:
      return c.pick<int64_t>({INF, time_value::infinity, INF + 1, time_value::infinity - 7});
  }
}
static bool inf(int64_t a)
{
  return a >= INF;
}
static std::string sh(int64_t a)
{
  return inf(a) ? "inf(" + std::to_string(a) + ")" : std::to_string(a);
}
#define EXPECT(EXPR, RES_INF, VAL)                                                       \
  do                                                                                     \
  {                                                                                      \
    const time_value got_ = (EXPR);                                                      \
    if (RES_INF)                                                                         \
    {                                                                                    \
      if (!got_.infinite())                                                              \
        VF_FAIL(#EXPR << " with a=" << sh(a) << " b=" << sh(b) << " is " << got_.impl    \
                      << ", expected an infinite duration");                             \
    }                                                                                    \
    else if (got_.impl != (int64_t)(VAL))                                                \
      VF_FAIL(#EXPR << " with a=" << sh(a) << " b=" << sh(b) << " is " << got_.impl      \
                    << ", expected " << (int64_t)(VAL));                                 \
  } while (0)

VF_PROP(arithmetic, 300000, 4000000)
{
  const int64_t a = gen_t(c), b = gen_t(c);
  c.nontrivial(a != b || a < 0 || inf(a));
  const time_value x{a}, y{b};
  const W s = (W)a + b, d = (W)a - b;
  const bool any = inf(a) || inf(b);
  VF_CHECK(x.infinite() == inf(a), "infinite " << a);
  // (sums of two durations beyond the range, both negative, are not specified)
  if (any || !(a < 0 && b < 0 && s <= -INF))
    EXPECT(x + y, any || s >= INF, s);
  if (any || (d < INF && d > -INF))
    EXPECT(x - y, any, d);
  EXPECT(x + (int64_t)0, inf(a), a);
  if (!inf(b) && b < INF - 1)
  {
    if (!(a < 0 && b < 0 && s <= -INF))
      EXPECT(x + b, inf(a) || s >= INF, s);
    if (inf(a) || (d > -INF && !(a < 0 && b > 0 && d <= -INF)))
      EXPECT(x - b, inf(a) || d >= INF, d);
    if (b >= 0)
    {
      EXPECT(x + (uint64_t)b, inf(a) || s >= INF, s);
      if (d > -INF)
        EXPECT(x - (uint64_t)b, inf(a), d);
    }
    if (std::abs(b) < (1ll << 52))
    {
      if (!(a < 0 && b < 0 && s <= -INF))
        EXPECT(x + (double)b, inf(a) || s >= INF, s);
      if (inf(a) || (d < INF && d > -INF))
        EXPECT(x - (double)b, inf(a), d);
    }
  }
  {
    time_value z = x;
    z += y;
    if (any || (s < INF && s > -INF))
      EXPECT(z, any, s);
    z = x;
    z -= y;
    if (any || (d < INF && d > -INF))
      EXPECT(z, any, d);
    z = x;
    if (!inf(b))
    {
      z += b;
      if (inf(a) || s < INF)
        EXPECT(z, inf(a), s);
      z = x;
      z -= b;
      if (inf(a) || d < INF)
        EXPECT(z, inf(a), d);
    }
    z = b;
    VF_CHECK(z.impl == b, "assignment");
    z = x;
    const time_value n = -z;
    EXPECT(n, inf(a), -a);
    VF_CHECK(z.impl == a, "negating " << a << " changed it to " << z.impl);
  }
  if (!inf(a))
  {
    const int32_t k = (int32_t)c.range(-1000, 1000);
    const W p = (W)a * k;
    if (p < INF && p > -INF)
    {
      EXPECT(x * k, false, p);
      EXPECT(x * (int64_t)k, false, p);
      if (k >= 0)
        EXPECT(x * (uint64_t)k, false, p);
      if (k >= 0)
        EXPECT(x * (uint32_t)k, false, p);
      if (std::abs(a) < (1ll << 40))
      {
        EXPECT(x * (double)k, false, p);
        EXPECT(x * (k / 8.), false, (int64_t)(a * (k / 8.)));
      }
    }
    if (std::abs(a) < (1 << 20) && std::abs(k) < 16)
      EXPECT(x * (float)k, false, p);
    if (!inf(b) && b != 0)
    {
      EXPECT(x % y, false, a % b);
      const double q = x / y;
      VF_CHECK(std::abs(q - (double)a / (double)b) <= 1e-12 * std::abs(q), a << "/" << b << "=" << q);
    }
    EXPECT(ossia::abs(x), false, a < 0 ? -a : a);
  }
  if (any)
    VF_CHECK(ossia::norm(x, y).infinite(), "distance from an infinite duration");
  else if (d < INF && d > -INF)
    EXPECT(ossia::norm(x, y), false, d < 0 ? -d : d);
}

VF_PROP(order, 200000, 2000000)
{
  const int64_t a = gen_t(c), b = c.chance(1, 4) ? a : gen_t(c);
  const time_value x{a}, y{b};
  c.nontrivial(a != b);
  const bool ii = inf(a) && inf(b);
  const bool eq = ii || a == b;
  VF_CHECK((x == y) == eq, sh(a) << " == " << sh(b));
  VF_CHECK((x != y) == !eq, sh(a) << " != " << sh(b));
  VF_CHECK((x < y) == (!ii && a < b), sh(a) << " < " << sh(b));
  VF_CHECK((x > y) == (!ii && a > b), sh(a) << " > " << sh(b));
  if (!ii)
  {
    VF_CHECK((x <= y) == (a <= b), sh(a) << " <= " << sh(b));
    VF_CHECK((x >= y) == (a >= b), sh(a) << " >= " << sh(b));
  }
  using namespace ossia;
  VF_CHECK(Infinite.infinite() && !Zero.infinite() && !One.infinite(), "constants");
  VF_CHECK(Zero.impl == 0 && One.impl == 1, "constants");
  VF_CHECK((123_tv).impl == 123 && (12.75_tv).impl == 12, "literals");
  time_signature s{(uint16_t)c.range(1, 12), (uint16_t)c.pick({1, 2, 4, 8})},
      t{(uint16_t)c.range(1, 12), (uint16_t)c.pick({1, 2, 4, 8})};
  VF_CHECK((s == t) == (s.upper == t.upper && s.lower == t.lower), "signature ==");
  VF_CHECK((s != t) == !(s == t), "signature !=");
}

// a sum of ticks is the date, whatever the order
VF_PROP(accumulation, 60000, 600000)
{
  time_value t{0}, u{0};
  W ref = 0;
  std::vector<int64_t> v;
  for (int n = 0; c.more(n, 30, 12); n++)
    v.push_back(c.range(-(1ll << 40), 1ll << 40));
  for (auto x : v)
  {
    t += time_value{x};
    ref += x;
    VF_CHECK(t.impl == (int64_t)ref, "sum");
  }
  for (std::size_t i = v.size(); i-- > 0;)
    u = u + time_value{v[i]};
  VF_CHECK(u == t, "sum in reverse order: " << u.impl << " instead of " << t.impl);
  for (auto x : v)
    u = u - time_value{x};
  VF_CHECK(u.impl == 0, "subtracting every tick leaves " << u.impl);
  c.nontrivial(v.size() >= 2);
}

VF_PROP(samples, 100000, 1000000)
{
  const int64_t a = c.coin() ? c.range(0, 705600000ll * 10) : c.range(-(1ll << 40), 1ll << 50);
  const double rate = (double)c.pick({44100, 48000, 88200, 96000, 192000, 1000, 1, 32000});
  c.nontrivial(a != 0);
  const int64_t got = ossia::to_sample(time_value{a}, rate);
  const long double want = (long double)a * rate / 705600000.0L;
  VF_CHECK(std::fabs((long double)got - want) <= 0.5L + std::fabs(want) * 1e-15L, a << " at " << rate << " is sample " << got << ", expected " << (double)want);
  VF_CHECK(ossia::to_sample(ossia::Infinite, rate) == 0, "infinite in samples");
  VF_CHECK(ossia::to_sample(time_value{a}, 0.) == 0, "no sample rate");
  // usual rates divide the time base: exact both ways
  const int64_t n = c.range(0, 1ll << 40);
  if (rate >= 1000)
  {
    const int64_t per = 705600000ll / (int64_t)rate;
    VF_CHECK(per * (int64_t)rate == 705600000ll, "time base");
    VF_CHECK(ossia::to_sample(time_value{(n % (1 << 24)) * per}, rate) == n % (1 << 24), "whole samples");
  }
  VF_CHECK(ossia::flicks_per_second<double> == 705600000., "flicks per second");
  VF_CHECK(ossia::flicks_per_millisecond<double> == 705600., "flicks per ms");
  VF_CHECK(ossia::flicks_per_microsecond<double> == 705.6, "flicks per us");
  VF_CHECK(ossia::quarter_duration<double> == 352800000., "quarter note at 120");
}
