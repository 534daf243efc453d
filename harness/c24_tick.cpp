// C24: a tick: looping, mapping to samples, quantification, metronome.
#include "vf.hpp"

#include <ossia/dataflow/token_request.hpp>

using namespace ossia;
const char* const vf::rule
    = "ticks over dates, speeds, offsets, sample ratios, loop lengths, bars and signatures; "
      "consecutive ticks cut anywhere; non-trivial: a loop restart, a division or bar inside "
      "the tick, or a speed other than 1";

static token_request tk(int64_t a, int64_t b, int64_t off = 0, double speed = 1.)
{
  return token_request{time_value{a}, time_value{b}, time_value{0}, time_value{off}, speed, {4, 4}, 120.};
}

VF_PROP(loop, 100000, 1000000)
{
  const int64_t prev = c.range(0, 300), len = c.range(0, 400);
  const int64_t so = c.range(0, 50), dur = c.range(1, 120), off = c.range(0, 64);
  auto t = tk(prev, prev + len, off);
  t.speed = 2.;
  t.parent_duration = time_value{1234};
  int64_t done = 0;
  int pieces = 0, restarts = 0;
  bool expect_restart = false;
  t.loop(
      time_value{so}, time_value{dur},
      [&](const token_request& r) {
        VF_CHECK(!expect_restart, "no restart was announced between two passes");
        pieces++;
        const int64_t n = r.date.impl - r.prev_date.impl;
        VF_NOTE("piece " << r.prev_date.impl << " -> " << r.date.impl << " offset " << r.offset.impl);
        VF_CHECK(n > 0, "a piece of length " << n);
        VF_CHECK(
            r.prev_date.impl == so + (prev + done) % dur,
            "piece starts at " << r.prev_date.impl << ", expected " << so + (prev + done) % dur);
        VF_CHECK(r.date.impl <= so + dur, "piece ends at " << r.date.impl << " past the loop");
        VF_CHECK(r.offset.impl == off + done, "offset " << r.offset.impl << ", expected " << off + done);
        VF_CHECK(r.speed == 2. && r.parent_duration.impl == 1234, "speed and parent are kept");
        done += n;
        VF_CHECK(done <= len, "more was played than asked");
        expect_restart = r.date.impl == so + dur;
        VF_CHECK(expect_restart || done == len, "a piece stops before the end of the loop");
      },
      [&](time_value v) {
        VF_CHECK(expect_restart, "a restart was announced in the middle");
        VF_CHECK(v.impl == so, "restart at " << v.impl);
        expect_restart = false;
        restarts++;
      });
  VF_CHECK(done == len, "played " << done << " of " << len);
  VF_CHECK(!expect_restart, "the last restart was not announced");
  VF_CHECK(
      restarts == (prev % dur + len) / dur, restarts << " restarts, expected "
                                                    << (prev % dur + len) / dur);
  c.nontrivial(restarts > 0);
}

VF_PROP(basics, 100000, 1000000)
{
  const int64_t a = c.range(-300, 1000), b = c.range(-300, 1000), off = c.range(-5, 300);
  const int64_t par = c.range(0, 500);
  const double speed = c.pick({1., 0.5, 2., 3., 0.25});
  const token_request t{time_value{a}, time_value{b}, time_value{par}, time_value{off}, speed, {3, 8}, 90.};
  c.nontrivial(a != b);
  VF_CHECK(t.offset.impl == std::max<int64_t>(off, 0), "offset " << t.offset.impl);
  VF_CHECK(
      t.prev_date.impl == a && t.date.impl == b && t.parent_duration.impl == par
          && t.speed == speed && t.tempo == 90. && t.signature == (time_signature{3, 8}),
      "constructor");
  VF_CHECK(t.model_read_duration().impl == b - a, "duration " << t.model_read_duration().impl);
  VF_CHECK(
      t.forward() == (b > a) && t.backward() == (b < a) && t.paused() == (a == b), "direction");
  const int64_t x = c.range(-310, 1010);
  VF_CHECK(t.in_range(time_value{x}) == (x >= a && x < b), x << " in [" << a << "," << b << ")");
  VF_CHECK(t.position() == (par > 0 ? b / (double)par : 0.), "position " << t.position());
  const int64_t k = c.range(-100, 100);
  const auto u = t.add_offset(time_value{k});
  VF_CHECK(u.prev_date.impl == a + k && u.date.impl == b + k && u.offset == t.offset, "add_offset");

  // in samples
  const double ratio = c.pick({1., 0.5, 0.0625, 2., 0.1, 1. / 16000});
  const int64_t len = std::abs(b - a);
  auto fl = [](double d) { return (int64_t)std::floor(d); };
  VF_CHECK(t.physical_read_duration(ratio) == fl(len * ratio), "read duration");
  VF_CHECK(t.physical_write_duration(ratio) == fl(len * ratio / speed), "write duration");
  const int bs = (int)c.range(0, 1024);
  VF_CHECK(
      t.safe_physical_write_duration(ratio, bs) == fl(bs - t.offset.impl * ratio / speed),
      "safe write duration");
  VF_CHECK(t.physical_start(ratio) == (int64_t)(t.offset.impl * ratio / speed), "physical start");
  VF_CHECK(
      t.start_date_to_physical(ratio) == (int64_t)(a * ratio / speed), "start date in samples");
  const int64_t px = t.to_physical_time_in_tick(time_value{x}, ratio);
  VF_CHECK(
      px == (int64_t)((double)(x - a + t.offset.impl) * ratio / speed),
      "date " << x << " of tick " << a << "->" << b << " offset " << t.offset.impl << " is at sample "
              << px);
  VF_CHECK(t.to_physical_time_in_tick(x, ratio) == px, "both forms agree");
  if (b > a && x >= a && x <= b)
  {
    // inside the tick: within the samples it may write
    VF_CHECK(
        px >= t.physical_start(ratio)
            && px <= t.physical_start(ratio) + t.physical_write_duration(ratio) + 1,
        "sample of a date inside the tick is outside of it");
    const double step = speed / ratio;
    const auto back = t.from_physical_time_in_tick(px, ratio).impl;
    VF_CHECK(
        std::abs((double)(back - x)) <= step + 1, "date " << x << " -> sample " << px << " -> " << back);
  }
  if (ratio == 1. && speed == 1. && x >= a)
    VF_CHECK(t.from_physical_time_in_tick(px, ratio).impl == x, "exact when a sample is a unit of time");
  VF_CHECK(t == t && !(t != t), "==");
  auto w = t;
  switch (c.draw(8))
  {
    case 0:
      w.prev_date += One;
      break;
    case 1:
      w.date += One;
      break;
    case 2:
      w.parent_duration += One;
      break;
    case 3:
      w.offset += One;
      break;
    case 4:
      w.speed += 1;
      break;
    case 5:
      w.tempo += 1;
      break;
    case 6:
      w.musical_end_position += 1;
      break;
    default:
      w.start_discontinuous = true;
  }
  VF_CHECK(w != t && !(w == t), "a different tick is equal");
}

// Ticks cut anywhere write as many samples as the whole when each cut is on a sample.
VF_PROP(cuts, 30000, 300000)
{
  const int64_t per = c.pick({1, 16, 100, 16000});
  const double ratio = 1. / per;
  int64_t t = c.range(0, 50) * per, total = 0, written = 0, off = 0;
  const int64_t t0 = t;
  int n = 0;
  for (; c.more(n, 12, 6); n++)
  {
    const int64_t d = c.range(0, 64) * per;
    const auto r = tk(t, t + d, off);
    const auto at = r.physical_start(ratio);
    VF_CHECK(at == written, "tick starts at sample " << at << ", expected " << written);
    const auto w = r.physical_write_duration(ratio);
    VF_CHECK(w == d / per, "tick of " << d << " writes " << w);
    VF_CHECK(r.to_physical_time_in_tick(time_value{t}, ratio) == written, "first sample of the tick");
    written += w;
    t += d;
    off += d;
    total += d;
  }
  VF_CHECK(tk(t0, t0 + total).physical_write_duration(ratio) == written, "whole");
  c.nontrivial(n > 1);
}

// ---- musical time -------------------------------------------------------------
struct Mus
{
  token_request r;
  double p, e, L, sig0;
  int64_t a, b;
};
// constant signature; positions are multiples of 1/64 quarter, exact
static Mus gen_mus(vf::Case& c, double maxlen)
{
  Mus m;
  const time_signature sig{(uint16_t)c.range(1, 12), (uint16_t)c.pick({2, 4, 8, 16})};
  m.L = 4. * sig.upper / sig.lower;
  m.sig0 = (double)c.range(0, 6) * m.L;
  m.p = m.sig0 + (double)c.range(0, 64 * 30) / 64;
  const double len = std::min(maxlen, m.L) * (double)c.range(1, 63) / 64;
  m.e = m.p + len;
  m.a = c.range(0, 100000);
  m.b = m.a + c.range(1, 100000) * 64;
  m.r = tk(m.a, m.b);
  m.r.signature = sig;
  m.r.musical_start_last_signature = m.sig0;
  auto bar = [&](double x) { return m.sig0 + std::floor((x - m.sig0) / m.L) * m.L; };
  m.r.musical_start_last_bar = bar(m.p);
  m.r.musical_end_last_bar = bar(m.e);
  m.r.musical_start_position = m.p;
  m.r.musical_end_position = m.e;
  return m;
}
static std::string show(const Mus& m)
{
  std::ostringstream s;
  s.precision(17);
  s << "quarters " << m.p << "->" << m.e << " bar of " << m.L << " signature since " << m.sig0
    << " dates " << m.a << "->" << m.b;
  return s.str();
}

VF_PROP(quantification, 150000, 1500000)
{
  const auto m = gen_mus(c, 1e9);
  VF_NOTE(show(m));
  const auto& r = m.r;
  VF_CHECK(r.get_quantification_date(0.) == r.prev_date, "no quantification: now");
  VF_CHECK(r.get_quantification_date(-1.) == r.prev_date, "no quantification: now");
  {
    auto z = r;
    z.musical_end_position = z.musical_start_position;
    VF_CHECK(z.get_quantification_date(4.) == z.prev_date, "a tick that does not move: now");
  }
  double rate, pos;
  bool expect = false;
  if (c.coin())
  {
    // every n bars
    const int n = (int)c.pick({1, 2, 4, 8});
    rate = 1. / n;
    pos = m.sig0 + (std::floor((m.p - m.sig0) / m.L) + 1) * m.L;
    const double k = std::round((pos - m.sig0) / m.L);
    expect = pos <= m.e && std::fmod(k, n) == 0.;
    // division by a non-power of two: the code compares with a tolerance from above only
  }
  else
  {
    // every 4/rate quarters in the bar
    rate = (double)c.pick({2, 4, 8, 16, 32});
    const double q = 4. / rate;
    // a bar that is not made of whole divisions restarts the grid: only inside the bar
    if (std::fmod(m.L, q) != 0. && r.musical_start_last_bar != r.musical_end_last_bar)
      return;
    const double in = m.p - r.musical_start_last_bar;
    pos = r.musical_start_last_bar + (std::floor(in / q) + 1) * q;
    expect = pos <= m.e;
  }
  const auto got = r.get_quantification_date(rate);
  c.nontrivial(expect);
  VF_CHECK(
      got.has_value() == expect, "rate " << rate << ", " << show(m) << ": "
                                         << (got ? "date " + std::to_string(got->impl) : "no date")
                                         << ", next division at " << pos);
  if (!got)
    return;
  const double want = m.a + (pos - m.p) / (m.e - m.p) * (m.b - m.a);
  VF_CHECK(
      std::abs(got->impl - want) <= 1.0001,
      "rate " << rate << ", " << show(m) << ": date " << got->impl << ", expected " << want);
  VF_CHECK(got->impl >= m.a && got->impl <= m.b, "quantified outside of the tick");
  const double ratio = c.pick({1., 0.5, 1. / 16});
  const auto ph = r.get_physical_quantification_date(rate, ratio);
  VF_CHECK(
      ph && *ph == r.to_physical_time_in_tick(*got, ratio), "physical quantification date");
}

// Cutting a tick in two at any point finds the same next division once.
VF_PROP(quantification_cut, 60000, 600000)
{
  auto m = gen_mus(c, 1e9);
  const double rate = (double)c.pick({1, 2, 4, 8});
  const double q = rate <= 1 ? m.L : 4. / rate;
  if (std::fmod(m.L, q) != 0.)
    return;
  const int64_t cut = c.range(1, 63);
  auto at = [&](double x) { return m.sig0 + std::floor((x - m.sig0) / m.L) * m.L; };
  // cut where both the date and the position are exact
  const int64_t d = m.a + (m.b - m.a) / 64 * cut;
  const double x = m.p + (m.e - m.p) / 64 * cut;
  auto r1 = m.r, r2 = m.r;
  r1.date = time_value{d};
  r2.prev_date = time_value{d};
  r1.musical_end_position = r2.musical_start_position = x;
  r1.musical_end_last_bar = r2.musical_start_last_bar = at(x);
  const auto whole = m.r.get_quantification_date(rate), q1 = r1.get_quantification_date(rate),
             q2 = r2.get_quantification_date(rate);
  const auto first = q1 ? q1 : q2;
  c.nontrivial(whole.has_value());
  VF_CHECK(
      whole.has_value() == first.has_value(), show(m) << " cut at " << x << " rate " << rate);
  if (whole)
    VF_CHECK(
        std::abs(whole->impl - first->impl) <= 2, show(m) << " cut at " << x << " rate " << rate << ": "
                                                          << whole->impl << " or " << first->impl);
}

VF_PROP(metronome, 100000, 1000000)
{
  // shorter than a quarter: at most one beat
  const auto m = gen_mus(c, 1.);
  if (m.p == 0. && m.r.musical_end_last_bar != m.r.musical_start_last_bar)
    return;
  const double ratio = c.pick({1., 0.5, 1. / 64});
  int ticks = 0, tocks = 0;
  int64_t at = -1;
  m.r.metronome(
      ratio,
      [&](int64_t s) {
        ticks++;
        at = s;
      },
      [&](int64_t s) {
        tocks++;
        at = s;
      });
  const double bar = m.sig0 + (std::floor((m.p - m.sig0) / m.L) + 1) * m.L;
  const double quarter
      = m.r.musical_start_last_bar + std::floor(m.p - m.r.musical_start_last_bar) + 1;
  const int64_t n = (int64_t)std::floor((m.b - m.a) * ratio);
  int wt = 0, wk = 0;
  double pos = -1;
  if (m.p == 0.)
    wt = 1, pos = 0;
  else if (bar <= m.e)
    wt = 1, pos = bar;
  else if (quarter <= m.e)
    wk = 1, pos = quarter;
  if (n <= 0)
    wt = wk = 0;
  c.nontrivial(wt + wk > 0);
  VF_CHECK(ticks == wt && tocks == wk, show(m) << ": " << ticks << " bars and " << tocks << " beats, expected " << wt << " and " << wk);
  if (wt + wk)
  {
    const double want = n * (pos - m.p) / (m.e - m.p);
    VF_CHECK(std::abs(at - want) <= 1.001 && at >= 0 && at <= n, show(m) << ": at sample " << at << ", expected " << want);
  }
}

VF_PROP(bars_and_cuts, 60000, 600000)
{
  c.nontrivial();
  token_request r;
  r.signature = {(uint16_t)c.range(1, 12), (uint16_t)c.pick({2, 4, 8, 16})};
  const double L = 4. * r.signature.upper / r.signature.lower;
  r.musical_start_last_bar = (double)c.range(0, 100) / 4;
  const int k = (int)c.range(0, 5);
  const double extra = c.coin() ? 0. : L * (double)c.range(1, 15) / 16;
  r.musical_end_last_bar = r.musical_start_last_bar + k * L + extra;
  VF_CHECK(
      r.unexpected_bar_change() == (extra != 0.),
      "bar change after " << k * L + extra << " quarters in bars of " << L);

  // a tick whose music is in proportion to its dates stays so when shortened
  const int64_t a = c.range(1, 1000), b = a + c.range(2, 1000), t = c.range(a + 1, b);
  const double per = (double)c.range(1, 64) / 64;
  auto s = tk(a, b);
  s.musical_start_position = a * per;
  s.musical_end_position = b * per;
  auto u = s;
  u.reduce_end_time(time_value{t});
  VF_CHECK(u.prev_date.impl == a && u.date.impl == t, "reduce_end_time");
  VF_CHECK(
      u.musical_start_position == s.musical_start_position
          && std::abs(u.musical_end_position - t * per) < 1e-9 * t,
      "reduce_end_time: position " << u.musical_end_position);
  u = s;
  u.increase_start_time(time_value{t});
  VF_CHECK(u.prev_date.impl == t && u.date.impl == b, "increase_start_time");
  VF_CHECK(
      u.musical_end_position == s.musical_end_position
          && std::abs(u.musical_start_position - t * per) < 1e-9 * t,
      "increase_start_time: position " << u.musical_start_position);

  const simple_token_request q{time_value{a}, time_value{b}, time_value{7}, time_value{k}};
  const token_request f = q;
  VF_CHECK(f == q && q == f && !(f != q), "simple form");
  VF_CHECK(f.prev_date.impl == a && f.date.impl == b && f.parent_duration.impl == 7 && f.offset.impl == k, "simple form");
}
