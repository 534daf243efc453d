// C44: the audio processes: sounds in memory and in wav files, sines, gains, mergers.
#include "gen_value.hpp"
#include "vf.hpp"

#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/nodes/gain.hpp>
#include <ossia/dataflow/nodes/merger.hpp>
#include <ossia/dataflow/nodes/sine.hpp>
#include <ossia/dataflow/nodes/sound_mmap.hpp>
#include <ossia/dataflow/nodes/sound_ref.hpp>
#include <ossia/dataflow/port.hpp>

#include <cmath>
#include <map>

using namespace ossia;

const char* const vf::rule
    = "sounds of 0 to 4 channels in memory or in wav files of every format, looped or not, from any offset, run for ticks "
      "made of one or two tokens with fades, transports and edits in between; non-trivial: three ticks or more with sound";

namespace
{
constexpr int64_t sample = 16000; // flicks, at 44100 Hz
struct rig
{
  execution_state st;
  exec_state_facade f{&st};
  rig(vf::Case& c)
  {
    st.bufferSize = c.pick({64, 16, 128});
    st.sampleRate = 44100;
    st.modelToSamplesRatio = 1. / sample;
    st.samplesToModelRatio = sample;
  }
};
audio_port& out(graph_node& n)
{
  return *n.root_outputs()[0]->target<audio_port>();
}
// as the graph does at the end of a tick
void clear(audio_port& p)
{
  for(auto& s : p.samples)
    s.clear();
}
std::string show(const token_request& t)
{
  return std::to_string(t.prev_date.impl / sample) + "->" + std::to_string(t.date.impl / sample) + " +" + std::to_string(t.offset.impl / sample)
         + " x" + std::to_string(t.speed) + (t.start_discontinuous ? " start" : "") + (t.end_discontinuous ? " end" : "");
}
double fade(bool b, bool e, int64_t k, int64_t n)
{
  const double g = 1. - double(k) / n;
  return b && e ? 2 * g * (1 - g) : b ? 1 - g : e ? std::pow(2., g) - 1 : 1.;
}

struct wav
{
  std::vector<std::vector<double>> want; // channel, frame
  std::string bytes;
  acid_chunk acid{};
};
void put(std::string& s, uint64_t v, int n)
{
  for(int i = 0; i < n; i++)
    s += (char)(v >> (8 * i));
}
wav gen_wav(vf::Case& c)
{
  wav w;
  const int channels = (int)c.range(1, 3), bits = c.pick({16, 8, 24, 32, -32, -64}), len = (int)c.range(0, c.chance(1, 4) ? 400 : 60);
  w.want.resize(channels);
  std::string data;
  for(int i = 0; i < len; i++)
    for(int k = 0; k < channels; k++)
    {
      if(bits < 0)
      {
        const float f = (float)c.range(-1000, 1000) / 1000.f;
        w.want[k].push_back(f);
        if(bits == -32)
        {
          uint32_t u;
          std::memcpy(&u, &f, 4);
          put(data, u, 4);
        }
        else
        {
          double d = f;
          uint64_t u;
          std::memcpy(&u, &d, 8);
          put(data, u, 8);
        }
      }
      else
      {
        const uint64_t raw = c.chance(1, 8) ? c.pick({(uint64_t)0, (uint64_t)1 << (bits - 1), ((uint64_t)1 << (bits - 1)) - 1, ~(uint64_t)0})
                                            : (uint64_t)c.draw(1u << 24) << (bits > 24 ? c.draw(9) : 0);
        put(data, raw, bits / 8);
        if(bits == 8)
          w.want[k].push_back((double)(raw & 0xff) / 127.5 - 1.);
        else
        {
          int64_t v = raw & (((uint64_t)1 << bits) - 1);
          if(v >> (bits - 1))
            v -= (int64_t)1 << bits;
          w.want[k].push_back((double)v / (double)((int64_t)1 << (bits - 1)));
        }
      }
    }
  const int b = std::abs(bits);
  auto fmt = [&] {
    w.bytes += "fmt ";
    put(w.bytes, 16, 4);
    put(w.bytes, bits < 0 ? 3 : 1, 2);
    put(w.bytes, channels, 2);
    put(w.bytes, 44100, 4);
    put(w.bytes, 44100 * channels * b / 8, 4);
    put(w.bytes, channels * b / 8, 2);
    put(w.bytes, b, 2);
  };
  w.bytes = "RIFFsizeWAVE";
  fmt();
  if(c.chance(1, 3))
  {
    w.acid.root_note = (int16_t)c.range(0, 127);
    w.acid.num_beats = (int)c.range(1, 99);
    w.acid.tempo = (float)c.range(40, 240);
    w.bytes += "acid";
    put(w.bytes, sizeof(acid_chunk), 4);
    w.bytes.append((const char*)&w.acid, sizeof(acid_chunk));
  }
  w.bytes += "data";
  put(w.bytes, data.size(), 4);
  w.bytes += data;
  VF_NOTE("a wav of " << channels << " channels of " << len << " frames of " << bits << " bits");
  return w;
}

// Plays a sound and compares it with what it contains
template <typename Node, typename Load>
void play(vf::Case& c, Node& s, std::vector<std::vector<double>>& data, double tol, Load load)
{
  rig r{c};
  int64_t head = 0, now = 0, last = 0, loop = 0, from = 0;
  bool loops = false;
  std::size_t start = 0, upmix = 0;
  int n = 0;
  for(std::size_t i = 0; c.more(i, 12, 6); i++)
  {
    if(i == 0 || c.chance(1, 12))
    {
      load();
      if constexpr(std::is_same_v<Node, nodes::sound_ref>)
        head = 0;
    }
    if(c.chance(1, 4))
    {
      loops = c.coin();
      loop = c.range(c.chance(1, 8) ? 0 : 1, 100);
      from = c.coin() ? 0 : c.range(0, 40);
      s.set_loop_info(time_value{loop * sample}, time_value{from * sample}, loops);
      VF_NOTE("loop " << loops << " of " << loop << " from " << from);
    }
    if(c.chance(1, 8))
    {
      s.set_start(start = c.range(0, 3));
      VF_NOTE("from channel " << start);
    }
    if(c.chance(1, 8))
    {
      s.set_upmix(upmix = c.range(0, 4));
      VF_NOTE("upmix to " << upmix);
    }
    if(c.chance(1, 8))
    {
      now = c.range(0, 300);
      s.transport(time_value{now * sample});
      head = now;
      VF_NOTE("to " << now);
    }
    const double speed = c.pick({1., 1., 0.5, 2.});
    const std::size_t chan = data.size();
    std::vector<std::vector<double>> want(chan, std::vector<double>(r.st.bufferSize, 0.));
    int64_t at = c.coin() ? 0 : c.range(0, r.st.bufferSize - 1);
    bool any = false;
    for(std::size_t k = 0, nt = c.chance(1, 3) ? 2 : 1; k < nt; k++)
    {
      token_request t;
      if(k == 1 && c.coin())
      {
        now = c.range(0, 100); // the parent loops
        VF_NOTE("back to " << now);
        if(now * sample >= last * sample)
        {
          s.transport(time_value{now * sample});
          head = now;
        }
      }
      int64_t len = c.chance(1, 10) ? c.range(0, 2 * r.st.bufferSize) : c.range(0, std::max<int64_t>(0, r.st.bufferSize - at));
      int64_t adv = (int64_t)(len * speed);
      len = (int64_t)(adv / speed);
      if(k == 0 && c.chance(1, 20))
        adv = -std::min(adv, now);
      t.prev_date = time_value{now * sample};
      now += adv;
      t.date = time_value{now * sample};
      t.parent_duration = time_value{1000 * sample};
      t.speed = speed;
      t.tempo = 120;
      t.offset = time_value{(int64_t)(at * speed) * sample};
      const int64_t first = (int64_t)(at * speed) / speed;
      t.start_discontinuous = c.chance(1, 6);
      t.end_discontinuous = c.chance(1, 6);
      VF_NOTE(show(t));
      s.run(t, r.f);
      if(adv <= 0 || chan == 0)
        continue;
      // what the buffer cannot hold is not played
      len = std::min(len, r.st.bufferSize - first);
      if(len <= 0)
        continue;
      if(t.prev_date < time_value{last * sample})
        head = t.prev_date.impl / sample;
      for(int64_t q = 0; q < len; q++)
      {
        const int64_t p = loops && loop > 0 ? from + (head + q) % loop : from + head + q;
        for(std::size_t ch = 0; ch < chan; ch++)
          want[ch][first + q]
              = (p < (int64_t)data[ch].size() ? data[ch][p] : 0.) * fade(t.start_discontinuous, t.end_discontinuous, q, len);
      }
      head += len;
      last = now;
      at = first + len;
      any = true;
      if(at >= r.st.bufferSize)
        break;
    }
    auto& ap = out(s);
    if(any)
    {
      auto all = want;
      if(chan == 1 && upmix > 1)
        all.resize(upmix, want[0]);
      VF_CHECK(ap.samples.size() == start + all.size(), ap.samples.size() << " channels instead of " << start + all.size());
      for(std::size_t k = 0; k < start; k++)
        for(double x : ap.samples[k])
          VF_CHECK(x == 0., "sound in channel " << k << " before the first");
      for(std::size_t k = 0; k < all.size(); k++)
      {
        VF_CHECK((int)ap.samples[start + k].size() == r.st.bufferSize, "channel " << k << " has " << ap.samples[start + k].size() << " samples");
        for(int q = 0; q < r.st.bufferSize; q++)
          VF_CHECK(
              std::abs(ap.samples[start + k][q] - all[k][q]) <= tol,
              "sample " << q << " of channel " << k << " is " << ap.samples[start + k][q] << " instead of " << all[k][q]);
      }
      n++;
    }
    else
      for(auto& ch : ap.samples)
        for(double x : ch)
          VF_CHECK(x == 0., "sound out of nothing");
    clear(ap);
  }
  c.nontrivial(n >= 3 && !data.empty() && !data[0].empty());
}
}

VF_PROP(sound_in_memory, 8000, 100000)
{
  nodes::sound_ref s;
  std::vector<std::vector<double>> data;
  play(c, s, data, 1e-6, [&] {
    data.assign(c.range(c.chance(1, 10) ? 0 : 1, 4), {});
    const int len = (int)c.range(0, c.chance(1, 4) ? 400 : 60);
    audio_array a;
    for(auto& ch : data)
    {
      for(int i = 0; i < len; i++)
        ch.push_back((float)c.range(-1000, 1000) / 1000.f);
      a.emplace_back();
      a.back().assign(ch.begin(), ch.end());
    }
    VF_NOTE(data.size() << " channels of " << len << " samples");
    s.set_sound(std::move(a));
  });
}

VF_PROP(sound_in_a_wav, 8000, 100000)
{
  nodes::sound_mmap s;
  std::vector<std::vector<double>> data;
  wav w = gen_wav(c);
  // 8 bits: one step is worth 1/128
  play(c, s, data, 1.1 / 128, [&] {
    if(data.empty() || c.coin())
    {
      data = w.want;
      s.set_sound(drwav_handle{w.bytes.data(), w.bytes.size()});
    }
  });
}

VF_PROP(wav_precision, 4000, 40000)
{
  // 16 bits and more: to the precision of the format
  wav w = gen_wav(c);
  nodes::sound_mmap s;
  drwav_handle h{w.bytes.data(), w.bytes.size()};
  const int bits = h.bitsPerSample();
  const double tol = bits == 8 ? 1. / 100 : bits == 16 ? 1. / 30000 : 1e-6;
  s.set_sound(h);
  rig r{c};
  const int64_t len = (int64_t)w.want[0].size();
  for(int64_t at = 0; at < len; at += r.st.bufferSize)
  {
    token_request t;
    t.prev_date = time_value{at * sample};
    t.date = time_value{(at + r.st.bufferSize) * sample};
    t.parent_duration = time_value{len * sample};
    t.speed = 1;
    t.tempo = 120;
    s.run(t, r.f);
    auto& ap = out(s);
    VF_CHECK(ap.samples.size() == w.want.size(), ap.samples.size() << " channels");
    for(std::size_t k = 0; k < w.want.size(); k++)
      for(int64_t q = 0; q < r.st.bufferSize; q++)
      {
        const double x = ap.samples[k][q], y = at + q < len ? w.want[k][at + q] : 0.;
        VF_CHECK(std::abs(x - y) <= tol, "sample " << at + q << " of " << bits << " bits is " << x << " instead of " << y);
      }
    clear(ap);
  }
  c.nontrivial(len > 10);
}

VF_PROP(wav_handles, 6000, 60000)
{
  std::vector<wav> ws;
  for(int i = 0; i < 2; i++)
    ws.push_back(gen_wav(c));
  std::vector<drwav_handle> hs(3);
  std::vector<int> model(3, -1);
  int n = 0;
  for(std::size_t i = 0; c.more(i, 14, 7); i++)
  {
    const int a = (int)c.draw(3), b = (int)c.draw(3), k = (int)c.draw(2);
    switch(c.draw(5))
    {
      case 0:
        hs[a].open_memory(ws[k].bytes.data(), ws[k].bytes.size());
        model[a] = k;
        VF_NOTE(a << " opens " << k);
        break;
      case 1:
        hs[a] = drwav_handle{ws[k].bytes.data(), ws[k].bytes.size()};
        model[a] = k;
        VF_NOTE(a << " = wav " << k);
        break;
      case 2:
        VF_NOTE(a << " = " << b);
        hs[a] = hs[b];
        model[a] = model[b];
        break;
      case 3:
        if(a == b)
          break;
        VF_NOTE(a << " = move " << b);
        hs[a] = std::move(hs[b]);
        model[a] = model[b];
        model[b] = -1;
        break;
      default:
      {
        VF_NOTE("copy of " << b << " moved in " << a);
        drwav_handle h{hs[b]};
        drwav_handle h2{std::move(h)};
        hs[a] = h2;
        model[a] = model[b];
        break;
      }
    }
    for(int q = 0; q < 3; q++)
    {
      VF_CHECK(bool(hs[q]) == (model[q] >= 0), "handle " << q << " is " << (hs[q] ? "open" : "closed"));
      if(model[q] < 0)
        continue;
      auto& w = ws[model[q]];
      VF_CHECK(hs[q].channels() == w.want.size() && hs[q].totalPCMFrameCount() == w.want[0].size(), "handle " << q << " has another wav");
      auto x = hs[q].acid();
      VF_CHECK(
          x.root_note == w.acid.root_note && x.num_beats == w.acid.num_beats && x.tempo == w.acid.tempo,
          "handle " << q << ": " << x.num_beats << " beats at " << x.tempo << " instead of " << w.acid.num_beats << " at " << w.acid.tempo);
      n++;
    }
  }
  c.nontrivial(n >= 2);
}

// Sounds played at another tempo than theirs with a change of pitch: a slow sine keeps its shape
VF_PROP(repitch, 60, 1500)
{
  rig r{c};
  const int chan = (int)c.range(1, 3), len = 6000;
  std::vector<double> w;
  for(int k = 0; k < chan; k++)
    w.push_back(0.004 * (double)c.range(1, 10));
  const double native = (double)c.range(60, 200), tempo = (double)c.range(60, 200);
  const double ratio = native / tempo;
  auto h = std::make_shared<audio_data>();
  for(int k = 0; k < chan; k++)
  {
    h->data.emplace_back();
    for(int i = 0; i < len; i++)
      h->data.back().push_back((float)std::sin(w[k] * i));
  }
  nodes::sound_ref s;
  s.set_sound(h, chan, 44100);
  resampler rs;
  rs.reset(0, audio_stretch_mode::Repitch, chan, 44100);
  s.set_resampler(std::move(rs));
  s.set_native_tempo(native);
  VF_NOTE(native << " to " << tempo);
  int64_t now = 0;
  for(int i = 0; i < 1500 && now < 1500; i++)
  {
    const int64_t at = c.coin() ? 0 : c.range(0, r.st.bufferSize - 1), n = c.coin() ? r.st.bufferSize - at : c.range(1, r.st.bufferSize - at);
    token_request t;
    t.prev_date = time_value{now * sample};
    t.date = time_value{(now + n) * sample};
    t.parent_duration = time_value{len * sample};
    t.offset = time_value{at * sample};
    t.speed = 1;
    t.tempo = tempo;
    s.run(t, r.f);
    auto& ap = out(s);
    VF_CHECK((int)ap.samples.size() == chan, ap.samples.size() << " channels");
    for(int k = 0; k < chan; k++)
      for(int64_t q = 0; q < n; q++)
      {
        // what is before the sound is silent, and mixes with its beginning
        if(now + q < 300)
          continue;
        const double x = ap.samples[k][at + q], y = std::sin(w[k] * (double)(now + q) / ratio);
        VF_CHECK(
            std::abs(x - y) < 0.05 + 1.5 * w[k] / std::min(1., ratio),
            "sample " << now + q << " of channel " << k << " is " << x << " instead of " << y << " (" << w[k] << ")");
      }
    now += n;
    clear(ap);
  }
  c.nontrivial();
}

VF_PROP(sine, 4000, 40000)
{
  rig r{c};
  nodes::sine s;
  auto& in = *s.root_inputs()[0]->target<value_port>();
  const double freq = (double)c.range(0, 20000);
  const bool by_inlet = c.coin();
  if(!by_inlet)
    s.freq = freq;
  s.amplitude = (double)c.range(0, 8) / 8.;
  const double w = 2. * M_PI * freq / 44100.;
  bool early = true, late = true;
  int64_t now = 0;
  double worst = 0;
  for(int i = 0; i < 4; i++)
  {
    token_request t;
    t.prev_date = time_value{now * sample};
    const int64_t n = c.range(0, r.st.bufferSize), at = c.range(0, r.st.bufferSize - n);
    t.date = time_value{(now + n) * sample};
    t.offset = time_value{at * sample};
    t.speed = 1;
    t.tempo = 120;
    if(by_inlet && (i == 0 || c.coin()))
      in.write_value((float)freq, 0);
    s.run(t, r.f);
    in.clear();
    if(n > 0)
    {
      VF_CHECK(out(s).samples.size() == 1 && (int64_t)out(s).samples[0].size() >= at + n, "the sine is too short");
      for(int64_t k = 0; k < n; k++)
      {
        const double x = out(s).samples[0][at + k];
        const double a = s.amplitude * std::sin(w * (now + k)), b = s.amplitude * std::sin(w * (now + k + 1));
        if(std::abs(x - a) > 0.02)
          early = false;
        if(std::abs(x - b) > 0.02)
          late = false;
        VF_CHECK(early || late, "sample " << now + k << " of a sine of " << freq << " Hz is " << x << " instead of " << a << " or " << b);
        worst = std::max(worst, std::abs(x));
      }
    }
    now += n;
    clear(out(s));
  }
  c.nontrivial(worst > 0.1);
}

VF_PROP(gain, 4000, 40000)
{
  rig r{c};
  nodes::gain_node g;
  auto& in = *g.root_inputs()[0]->target<audio_port>();
  auto& val = *g.root_inputs()[1]->target<value_port>();
  double gain = 0.005;
  int n = 0;
  for(std::size_t i = 0; c.more(i, 8, 4); i++)
  {
    in.samples.clear();
    in.samples.resize(c.range(0, 4));
    for(auto& ch : in.samples)
      for(int64_t q = 0, m = c.coin() ? r.st.bufferSize : c.range(0, r.st.bufferSize); q < m; q++)
        ch.push_back((double)c.range(-100, 100) / 100.);
    if(c.chance(1, 3))
      for(int k = (int)c.range(1, 2); k-- > 0;)
      {
        const float db = (float)c.range(-90, 20);
        val.write_value(db, 0);
        gain = std::min(1., std::pow(10., db / 20.));
        VF_NOTE(db << " dB");
      }
    token_request t;
    const int64_t len = c.range(0, r.st.bufferSize), at = c.range(0, r.st.bufferSize - len);
    t.prev_date = time_value{(int64_t)i * 1000 * sample};
    t.date = time_value{((int64_t)i * 1000 + len) * sample};
    t.offset = time_value{at * sample};
    t.speed = 1;
    t.tempo = 120;
    VF_NOTE(show(t));
    g.run(t, r.f);
    auto& ap = out(g);
    VF_CHECK(ap.samples.size() == in.samples.size(), ap.samples.size() << " channels for " << in.samples.size());
    for(std::size_t k = 0; k < in.samples.size(); k++)
      for(int64_t q = 0; q < (int64_t)ap.samples[k].size(); q++)
      {
        const double y = q >= at && q < at + len && q < (int64_t)in.samples[k].size() ? gain * in.samples[k][q] : 0.;
        VF_CHECK(std::abs(ap.samples[k][q] - y) <= 1e-5, "sample " << q << " of channel " << k << " is " << ap.samples[k][q] << " instead of " << y);
        if(y != 0)
          n++;
      }
    val.clear();
    clear(ap);
  }
  c.nontrivial(n > 10);
}

VF_PROP(merger, 3000, 30000)
{
  rig r{c};
  const int count = (int)c.range(1, 5);
  nodes::merger m{count};
  int n = 0;
  for(std::size_t i = 0; c.more(i, 6, 3); i++)
  {
    std::vector<std::vector<double>> want;
    for(int k = 0; k < count; k++)
    {
      auto& in = m.root_inputs()[k]->target<audio_port>()->samples;
      in.clear();
      in.resize(c.chance(1, 4) ? c.range(0, 4) : 2);
      for(std::size_t q = 0; q < in.size(); q++)
      {
        for(int64_t j = c.range(0, 8); j-- > 0;)
          in[q].push_back((double)c.range(-100, 100));
        if(q < 2)
          want.emplace_back(in[q].begin(), in[q].end());
      }
    }
    token_request t;
    t.date = time_value{64 * sample};
    t.speed = 1;
    m.run(t, r.f);
    auto& o = out(m).samples;
    VF_CHECK(o.size() >= want.size(), o.size() << " channels");
    for(std::size_t k = 0; k < o.size(); k++)
      VF_CHECK(
          std::vector<double>(o[k].begin(), o[k].end()) == (k < want.size() ? want[k] : std::vector<double>{}),
          "channel " << k << " is not the one which was merged");
    n += (int)want.size();
    clear(out(m));
  }
  c.nontrivial(n >= 4);
}
