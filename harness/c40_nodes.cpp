// C40: the processes of a score: automations, mappings, splines, gradients, steps, metronomes, notes.
#include "gen_value.hpp"
#include "vf.hpp"

#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/nodes/automation.hpp>
#include <ossia/dataflow/nodes/dummy.hpp>
#include <ossia/dataflow/nodes/forward_node.hpp>
#include <ossia/dataflow/nodes/gradient.hpp>
#include <ossia/dataflow/nodes/mapping.hpp>
#include <ossia/dataflow/nodes/messages.hpp>
#include <ossia/dataflow/nodes/metronome.hpp>
#include <ossia/dataflow/nodes/midi.hpp>
#include <ossia/dataflow/nodes/percentage.hpp>
#include <ossia/dataflow/nodes/rand_float.hpp>
#include <ossia/dataflow/nodes/spline.hpp>
#include <ossia/dataflow/nodes/step.hpp>
#include <ossia/dataflow/port.hpp>
#include <ossia/editor/curve/curve_segment/linear.hpp>
#include <ossia/network/generic/generic_device.hpp>

#include <cmath>
#include <map>
#include <set>

using namespace ossia;

const char* const vf::rule
    = "contents (curves, splines, gradients, steps, notes, messages) and runs of 1 to 30 ticks of any length, offset and "
      "speed, with jumps and edits in between; non-trivial: three ticks or more which output something";

namespace
{
struct rig
{
  execution_state st;
  exec_state_facade f{&st};
  int64_t dur{}, now{};
  vf::Case& c;
  rig(vf::Case& c)
      : c{c}
  {
    st.bufferSize = c.pick({64, 256, 32});
    st.modelToSamplesRatio = c.pick({1., 0.5, 0.25, 0.1});
    st.samplesToModelRatio = 1. / st.modelToSamplesRatio;
    dur = c.range(1, 2000);
  }
  // the next tick
  token_request tick(vf::Case& c, int64_t longest = 100)
  {
    token_request t;
    t.prev_date = time_value{now};
    now += c.chance(1, 10) ? 0 : c.range(1, longest);
    t.date = time_value{now};
    t.parent_duration = time_value{dur};
    t.speed = c.pick({1., 1., 2., 0.5, 3.});
    t.offset = time_value{c.coin() ? 0 : c.range(0, 40)};
    return t;
  }
};
std::string show(const token_request& t)
{
  return std::to_string(t.prev_date.impl) + "->" + std::to_string(t.date.impl) + "/" + std::to_string(t.parent_duration.impl) + " +"
         + std::to_string(t.offset.impl) + " x" + std::to_string(t.speed);
}
value_port& out(graph_node& n, int i = 0)
{
  return *n.root_outputs()[i]->target<value_port>();
}
void run(graph_node& n, const token_request& t, rig& r)
{
  auto& c = r.c;
  VF_NOTE(show(t));
  n.run(t, r.f);
}
// exactly one value, at the beginning of what is played
const ossia::value& one(graph_node& n, const token_request& t, rig& r)
{
  auto& d = out(n).get_data();
  VF_CHECK(d.size() == 1, d.size() << " values for a tick");
  VF_CHECK(d[0].timestamp == r.f.physical_start(t), "the value is at " << d[0].timestamp);
  return d[0].value;
}
template <typename X>
std::shared_ptr<curve<X, float>> gen_curve(vf::Case& c)
{
  auto k = std::make_shared<curve<X, float>>();
  k->set_x0(0);
  k->set_y0((float)c.range(-8, 8) / 4.f);
  double x = 0;
  for(std::size_t i = 0; c.more(i, 5, 2); i++)
  {
    x += (double)c.range(1, 8) / 16.;
    k->add_point(curve_segment_linear<float>{}, (X)x, (float)c.range(-40, 40) / 8.f);
  }
  return k;
}
bool near(double a, double b, double tol)
{
  return std::abs(a - b) <= tol * (1 + std::abs(b));
}
}

VF_PROP(automation, 12000, 150000)
{
  rig r{c};
  nodes::automation a;
  nodes::float_automation fa;
  std::vector<std::shared_ptr<curve<double, float>>> curves;
  behavior drive;
  const int kind = (int)c.draw(5);
  if(kind == 0)
    ;
  else if(kind == 1)
  {
    curves.push_back(gen_curve<double>(c));
    drive = behavior{curves[0]};
  }
  else if(kind == 2)
  {
    std::vector<behavior> v;
    for(int i = 0, n = (int)c.range(1, 6); i < n; i++)
    {
      curves.push_back(gen_curve<double>(c));
      v.push_back(behavior{curves.back()});
    }
    drive = behavior{v};
  }
  else if(kind == 3)
    drive = behavior{std::make_shared<curve<float, float>>()}; // not a function of time
  else
    drive = behavior{std::vector<behavior>{behavior{gen_curve<double>(c)}, behavior{}}};
  a.set_behavior(drive);
  auto lone = gen_curve<double>(c);
  fa.set_behavior(*lone);
  int n = 0;
  for(std::size_t i = 0; c.more(i, 20, 6); i++)
  {
    auto t = r.tick(c);
    const double pos = t.position();
    run(a, t, r);
    run(fa, t, r);
    VF_CHECK(one(fa, t, r) == ossia::value{lone->value_at(pos)}, "the value at " << pos << " is not that of the curve");
    if(kind == 1)
    {
      auto& v = one(a, t, r);
      VF_CHECK(v.get_type() == val_type::FLOAT && v.get<float>() == curves[0]->value_at(pos), "at " << pos << ": " << gv::show(v));
      n++;
    }
    else if(kind == 2)
    {
      auto v = one(a, t, r);
      auto l = ossia::convert<std::vector<ossia::value>>(v);
      VF_CHECK(l.size() == curves.size(), l.size() << " values for " << curves.size() << " curves");
      for(std::size_t k = 0; k < l.size(); k++)
        VF_CHECK(l[k] == ossia::value{curves[k]->value_at(pos)}, "element " << k << " at " << pos << ": " << gv::show(l[k]));
      n++;
    }
    else
      for(auto& e : out(a).get_data())
        VF_CHECK(!e.value.valid(), "a value comes from nothing: " << gv::show(e.value));
    out(a).clear();
    out(fa).clear();
    // resetting before another run does not change what is played
    if(c.chance(1, 10))
      a.reset_drive();
  }
  c.nontrivial(n >= 3);
}

VF_PROP(mapping, 12000, 150000)
{
  rig r{c};
  nodes::mapping m;
  auto& in = *m.root_inputs()[0]->target<value_port>();
  const bool list = c.chance(1, 3);
  std::vector<std::shared_ptr<curve<float, float>>> curves;
  for(int i = 0, n = list ? (int)c.range(1, 4) : 1; i < n; i++)
    curves.push_back(gen_curve<float>(c));
  if(list)
  {
    std::vector<behavior> v;
    for(auto& k : curves)
      v.push_back(behavior{k});
    m.set_behavior(behavior{v});
  }
  else
    m.set_behavior(behavior{curves[0]});
  int total = 0;
  for(std::size_t i = 0; c.more(i, 10, 4); i++)
  {
    auto t = r.tick(c);
    std::vector<std::pair<ossia::value, int64_t>> want;
    in.clear();
    out(m).clear();
    for(std::size_t k = 0; c.more(k, 5, 2); k++)
    {
      const int64_t when = c.range(0, 60);
      auto num = [&] { return (float)c.range(-16, 40) / 16.f; };
      ossia::value v;
      switch(c.draw(7))
      {
        case 6:
        {
          std::vector<ossia::value> l;
          for(std::size_t q = 0; c.more(q, 4, 2); q++)
            l.push_back(
                c.coin() ? ossia::value{num()} : c.coin() ? ossia::value{(int)c.range(-2, 3)} : c.coin() ? ossia::value{c.coin()} : ossia::value{});
          v = l;
          break;
        }
        case 0: v = num(); break;
        case 1: v = (int)c.range(-2, 3); break;
        case 2: v = c.coin(); break;
        case 3: v = vec2f{num(), num()}; break;
        case 4: v = vec3f{num(), num(), num()}; break;
        default: v = c.coin() ? ossia::value{impulse{}} : c.coin() ? ossia::value{std::string("a")} : ossia::value{}; break;
      }
      VF_NOTE("in " << gv::show(v) << " at " << when);
      in.write_value(v, when);
      auto each = [&](auto arr) {
        if(list && curves.size() != arr.size())
          return;
        for(std::size_t j = 0; j < arr.size(); j++)
          arr[j] = curves[list ? j : 0]->value_at(arr[j]);
        want.emplace_back(arr, when);
      };
      if(auto l = v.target<std::vector<ossia::value>>())
      {
        // element by element; there is nothing for what has no value
        auto res = *l;
        if(list && res.size() > curves.size())
          res.resize(curves.size());
        for(std::size_t q = 0; q < res.size(); q++)
          if(res[q].valid())
            res[q] = curves[list ? q : 0]->value_at(ossia::convert<float>(res[q]));
        want.emplace_back(res, when);
      }
      else if(auto a = v.target<vec2f>())
        each(*a);
      else if(auto b = v.target<vec3f>())
        each(*b);
      else if(!list && v.valid())
      {
        if(auto f = v.target<float>())
          want.emplace_back(curves[0]->value_at(*f), when);
        else if(auto j = v.target<int>())
          want.emplace_back(curves[0]->value_at((float)*j), when);
        else if(auto b = v.target<bool>())
          want.emplace_back(curves[0]->value_at((float)*b), when);
      }
    }
    run(m, t, r);
    std::vector<std::pair<ossia::value, int64_t>> got;
    for(auto& e : out(m).get_data())
      if(e.value.valid())
        got.emplace_back(e.value, e.timestamp);
    VF_CHECK(got.size() == want.size(), got.size() << " values instead of " << want.size());
    for(std::size_t k = 0; k < got.size(); k++)
      VF_CHECK(
          got[k].second == want[k].second && gv::show(got[k].first) == gv::show(want[k].first),
          gv::show(got[k].first) << " at " << got[k].second << " instead of " << gv::show(want[k].first) << " at " << want[k].second);
    total += (int)got.size();
  }
  c.nontrivial(total >= 3);
}

namespace
{
// A clamped cubic spline with evenly spaced knots, by its basis functions
double basis(const std::vector<double>& k, int i, int p, double u)
{
  if(p == 0)
    return (k[i] <= u && u < k[i + 1]) ? 1. : 0.;
  double a = 0, b = 0;
  if(k[i + p] > k[i])
    a = (u - k[i]) / (k[i + p] - k[i]) * basis(k, i, p - 1, u);
  if(k[i + p + 1] > k[i + 1])
    b = (k[i + p + 1] - u) / (k[i + p + 1] - k[i + 1]) * basis(k, i + 1, p - 1, u);
  return a + b;
}
template <std::size_t N>
std::array<double, N> spline_at(const std::vector<std::array<double, N>>& pts, double u)
{
  const int n = (int)pts.size();
  if(u <= 0)
    return pts.front();
  if(u >= 1)
    return pts.back();
  std::vector<double> k(n + 4);
  for(int i = 0; i < n + 4; i++)
    k[i] = i < 4 ? 0. : i >= n ? 1. : double(i - 3) / (n - 3);
  std::array<double, N> res{};
  for(int i = 0; i < n; i++)
  {
    const double b = basis(k, i, 3, u);
    for(std::size_t d = 0; d < N; d++)
      res[d] += b * pts[i][d];
  }
  return res;
}
template <std::size_t N, typename Node, typename Set>
void splines(vf::Case& c, Set set)
{
  rig r{c};
  Node s;
  std::vector<std::array<double, N>> pts;
  int n = 0;
  for(std::size_t i = 0; c.more(i, 16, 8); i++)
  {
    if(i == 0 || c.chance(1, 8))
    {
      pts.resize(c.range(c.chance(1, 8) ? 0 : 4, 9));
      for(auto& p : pts)
        for(auto& x : p)
          x = (double)c.range(-40, 40) / 8.;
      set(s, pts);
      VF_NOTE(pts.size() << " points");
    }
    auto t = r.tick(c);
    run(s, t, r);
    if(pts.size() < 4)
    {
      VF_CHECK(out(s).get_data().empty(), "a value from " << pts.size() << " points");
      continue;
    }
    n++;
    auto v = ossia::convert<std::vector<ossia::value>>(one(s, t, r));
    auto want = spline_at(pts, t.position());
    VF_CHECK(v.size() == N, "the value has " << v.size() << " components");
    for(std::size_t d = 0; d < N; d++)
      VF_CHECK(
          near(v[d].template get<float>(), want[d], 2e-2),
          "component " << d << " at " << t.position() << " is " << v[d].template get<float>() << " instead of " << want[d]);
    out(s).clear();
  }
  c.nontrivial(n >= 3);
}
}
VF_PROP(splines_2d, 5000, 60000)
{
  splines<2, nodes::spline>(c, [](auto& s, auto& p) {
    spline_data d;
    for(auto& x : p)
      d.points.push_back({x[0], x[1]});
    s.set_spline(d);
  });
}
VF_PROP(splines_3d, 5000, 60000)
{
  splines<3, nodes::spline3d>(c, [](auto& s, auto& p) {
    spline3d_data d;
    for(auto& x : p)
      d.points.push_back({x[0], x[1], x[2]});
    s.set_spline(d);
  });
}

VF_PROP(gradient, 8000, 100000)
{
  rig r{c};
  net::generic_device dev{"dev"};
  auto p = net::create_node(dev, "/color").create_parameter(val_type::VEC4F);
  vec4f start{1.f, (float)c.range(0, 8) / 8.f, (float)c.range(0, 8) / 8.f, (float)c.range(0, 8) / 8.f};
  p->set_value(start);
  nodes::gradient g;
  std::map<double, std::array<float, 3>> pts;
  nodes::gradient::grad_type data;
  for(std::size_t i = 0; c.more(i, 5, 3); i++)
  {
    double x = (double)c.range(0, 20) / 16.;
    std::array<float, 3> col{(float)c.range(1, 8) / 8.f, (float)c.range(0, 8) / 8.f, (float)c.range(0, 8) / 8.f};
    if(pts.emplace(x, col).second)
      data.insert(std::make_pair(x, hunter_lab{argb{1.f, col[0], col[1], col[2]}}));
  }
  g.set_gradient(data);
  g.mustTween = c.coin();
  const bool with_address = c.chance(2, 3);
  if(with_address)
    g.root_outputs()[0]->address = p;
  auto lab = [](std::array<float, 3> x) { return hunter_lab{argb{1.f, x[0], x[1], x[2]}}.dataspace_value; };
  int n = 0;
  for(std::size_t i = 0; c.more(i, 12, 6); i++)
  {
    auto t = r.tick(c);
    run(g, t, r);
    const double pos = t.position();
    auto v = one(g, t, r);
    VF_CHECK(v.get_type() == val_type::VEC4F, "not a color: " << gv::show(v));
    auto got = v.get<vec4f>();
    vec4f want{};
    if(!pts.empty())
    {
      auto mix = [&](vec3f a, vec3f b, double x) {
        hunter_lab h;
        for(int k = 0; k < 3; k++)
          h.dataspace_value[k] = a[k] + (b[k] - a[k]) * x;
        want = argb{h}.dataspace_value;
      };
      auto next = pts.lower_bound(pos);
      if(next == pts.end())
        mix(lab(pts.rbegin()->second), {}, 0.);
      else if(next != pts.begin())
      {
        auto prev = std::prev(next);
        mix(lab(prev->second), lab(next->second), (pos - prev->first) / (next->first - prev->first));
      }
      else if(g.mustTween && with_address && next->first > pos)
        mix(lab({start[1], start[2], start[3]}), lab(next->second), pos / next->first);
      else
        mix(lab(next->second), {}, 0.);
      for(auto& x : want)
        x = std::clamp(x, 0.f, 1.f);
    }
    for(int k = 0; k < 4; k++)
      VF_CHECK(near(got[k], want[k], 2e-3), "at " << pos << ": component " << k << " is " << got[k] << " instead of " << want[k]);
    out(g).clear();
    n++;
    // the color it starts from is that of the first time it is needed
    if(c.coin())
      p->set_value(g.tween ? vec4f{1.f, 0.f, 0.5f, 0.f} : start);
  }
  c.nontrivial(n >= 3 && pts.size() >= 2);
}

VF_PROP(steps, 8000, 100000)
{
  rig r{c};
  r.st.modelToSamplesRatio = c.pick({1., 0.5, 0.25});
  r.st.samplesToModelRatio = 1. / r.st.modelToSamplesRatio;
  nodes::step s;
  const int samples = (int)c.range(c.chance(1, 20) ? 0 : 1, 60);
  s.dur = time_value{samples};
  const int64_t d = samples * (int64_t)r.st.samplesToModelRatio;
  for(std::size_t i = 0; c.more(i, 8, 4); i++)
    s.values.push_back((float)i + 1);
  int n = 0;
  for(std::size_t i = 0; c.more(i, 20, 8); i++)
  {
    if(c.chance(1, 10))
      r.now = c.range(0, 500);
    auto t = r.tick(c);
    run(s, t, r);
    auto& got = out(s).get_data();
    std::size_t k = 0;
    if(d > 0 && !s.values.empty())
      for(int64_t at = t.prev_date.impl; at < t.date.impl; at++)
        if(at % d == 0)
        {
          VF_CHECK(k < got.size(), "the step at " << at << " is missing");
          VF_CHECK(
              got[k].value == ossia::value{s.values[(at / d) % s.values.size()]},
              "the step at " << at << " is " << gv::show(got[k].value));
          VF_CHECK(
              got[k].timestamp == t.to_physical_time_in_tick(at, r.st.modelToSamplesRatio),
              "the step at " << at << " is at sample " << got[k].timestamp);
          k++;
        }
    VF_CHECK(got.size() == k, got.size() << " steps instead of " << k);
    n += (int)k;
    out(s).clear();
  }
  c.nontrivial(n >= 3);
}

VF_PROP(metronome, 8000, 100000)
{
  rig r{c};
  nodes::metronome m;
  auto k = std::make_shared<curve<double, float>>();
  k->set_x0(0);
  const int64_t period = c.range(1, 200);
  k->set_y0((float)period);
  k->add_point(curve_segment_linear<float>{}, 1., (float)period);
  m.set_curve(k);
  int64_t total = 0;
  int n = 0;
  for(std::size_t i = 0; c.more(i, 30, 15); i++)
  {
    if(c.chance(1, 20))
    {
      m.reset();
      total = 0;
    }
    // one tick of the metronome at most
    auto t = r.tick(c, period);
    run(m, t, r);
    const bool want = (total + (t.date - t.prev_date).impl) / period > total / period;
    total += (t.date - t.prev_date).impl;
    auto& d = out(m).get_data();
    VF_CHECK(d.size() == (want ? 1 : 0), d.size() << " beats after " << total << " with a period of " << period);
    if(want)
    {
      one(m, t, r);
      VF_CHECK(d[0].value.get_type() == val_type::IMPULSE, "not a beat: " << gv::show(d[0].value));
    }
    n += want;
    out(m).clear();
  }
  c.nontrivial(n >= 3);
}

VF_PROP(small, 8000, 80000)
{
  rig r{c};
  net::generic_device dev{"dev"};
  auto p = net::create_node(dev, "/a").create_parameter(val_type::FLOAT);
  auto q = net::create_node(dev, "/b").create_parameter(val_type::VEC3F);
  nodes::percentage pc{ossia::destination{*p}};
  const float lo = (float)c.range(-9, 9), hi = lo + (float)c.range(1, 9);
  nodes::rand_float rnd{lo, hi};
  nodes::dummy_value_node dv;
  nodes::dummy_audio_node da;
  nodes::interval itv;
  float tempo = nodes::interval::no_tempo;
  if(c.coin())
    itv.root_inputs().push_back(new value_inlet);
  std::vector<std::pair<int, ossia::value>> msgs;
  nodes::messages ms;
  for(std::size_t i = 0; c.more(i, 5, 3); i++)
  {
    const float x = (float)c.range(-40, 40) / 4.f;
    if(c.coin())
      ms.data.push_back({ossia::destination{*p}, x, {}});
    else
      ms.data.push_back({ossia::destination{*q, ossia::destination_index{(int)c.draw(3)}}, x, {}});
  }
  std::set<float> seen;
  int n = 0;
  for(std::size_t i = 0; c.more(i, 10, 4); i++)
  {
    auto t = r.tick(c);
    run(pc, t, r);
    VF_CHECK(one(pc, t, r) == ossia::value{(float)t.position()}, "the position is " << gv::show(one(pc, t, r)));
    out(pc).clear();
    run(rnd, t, r);
    auto f = one(rnd, t, r).get<float>();
    VF_CHECK(f >= lo && f <= hi, f << " is not between " << lo << " and " << hi);
    seen.insert(f);
    out(rnd).clear();
    // forwarding
    auto& in = *dv.root_inputs()[0]->target<value_port>();
    in.clear();
    out(dv).clear();
    for(std::size_t k = 0; c.more(k, 4, 2); k++)
      in.write_value(gv::to_value(gv::gen(c)), c.range(0, 50));
    run(dv, t, r);
    VF_CHECK(in.get_data().size() == out(dv).get_data().size(), "values are lost");
    for(std::size_t k = 0; k < in.get_data().size(); k++)
      VF_CHECK(
          in.get_data()[k].timestamp == out(dv).get_data()[k].timestamp
              && gv::show(in.get_data()[k].value) == gv::show(out(dv).get_data()[k].value),
          "value " << k << " is not forwarded as it is");
    auto& ai = *da.root_inputs()[0]->target<audio_port>();
    ai.samples.resize(c.draw(4));
    for(auto& ch : ai.samples)
    {
      ch.resize(c.draw(64));
      for(auto& x : ch)
        x = (double)c.range(-100, 100);
    }
    run(da, t, r);
    VF_CHECK(da.root_outputs()[0]->target<audio_port>()->samples == ai.samples, "audio is not forwarded as it is");
    itv.root_inputs()[0]->target<audio_port>()->samples = ai.samples;
    if(itv.root_inputs().size() == 2)
    {
      auto& tp = *itv.root_inputs()[1]->target<value_port>();
      tp.clear();
      for(std::size_t k = 0; c.more(k, 3, 1); k++)
        tp.write_value(tempo = (float)c.range(20, 200), c.range(0, 50));
    }
    run(itv, t, r);
    VF_CHECK(itv.tempo == tempo, "the tempo is " << itv.tempo << " instead of " << tempo);
    VF_CHECK(itv.root_outputs()[0]->target<audio_port>()->samples == ai.samples, "the interval alters its audio");
    // messages
    float want = (float)c.range(-5, 5);
    vec3f wq{(float)c.range(-5, 5), (float)c.range(-5, 5), 0.f};
    p->set_value(want);
    q->set_value(wq);
    r.st.begin_tick();
    run(ms, t, r);
    VF_CHECK(p->value() == ossia::value{want}, "sent before the end of the tick");
    r.st.commit();
    for(auto& m : ms.data)
      if(m.dest.index.empty())
        want = m.message_value.get<float>();
      else
        wq[m.dest.index[0]] = m.message_value.get<float>();
    VF_CHECK(p->value() == ossia::value{want}, "/a is " << gv::show(p->value()) << " instead of " << want);
    VF_CHECK(q->value() == ossia::value{wq}, "/b is " << gv::show(q->value()) << " instead of " << gv::show(wq));
    n++;
  }
  VF_CHECK(n < 2 || seen.size() > 1, "the random values are all the same");
  c.nontrivial(n >= 3 && ms.data.size() >= 2);
}

// ---------------------------------------------------------------- notes
namespace
{
using note = std::tuple<int64_t, int64_t, int, int>; // start, duration, pitch, velocity
using sent = std::tuple<int, int, int, int64_t>;     // status, pitch, velocity, sample
nodes::note_data data(const note& n)
{
  return {time_value{std::get<0>(n)}, time_value{std::get<1>(n)}, (uint8_t)std::get<2>(n), (uint8_t)std::get<3>(n)};
}
int64_t start(const note& n) { return std::get<0>(n); }
int64_t end(const note& n) { return std::get<0>(n) + std::get<1>(n); }
std::string show(const note& n)
{
  return std::to_string(start(n)) + "+" + std::to_string(std::get<1>(n)) + " " + std::to_string(std::get<2>(n)) + ":"
         + std::to_string(std::get<3>(n));
}
std::string show(const std::multiset<sent>& s)
{
  std::string r;
  for(auto& [a, b, v, t] : s)
    r += (a >= 0x90 ? "on " : "off ") + std::to_string(a & 15) + " " + std::to_string(b) + ":" + std::to_string(v) + " at " + std::to_string(t) + ", ";
  return r;
}
}
VF_PROP(notes, 20000, 250000)
{
  rig r{c};
  nodes::midi m;
  const int channel = (int)c.range(1, 16);
  m.set_channel(channel);
  auto& port = *m.root_outputs()[0]->target<midi_port>();
  std::multiset<note> all, pending, playing, stopping;
  int64_t prev = 0;
  bool moving = false, resume = false;
  int64_t target = 0;
  int ons = 0;
  auto gen = [&] {
    return note{c.chance(1, 4) ? r.now : c.range(0, 200), c.chance(1, 4) ? c.range(0, 3) : c.range(0, 80), (int)c.range(60, 63), (int)c.range(1, 3)};
  };
  auto add = [&](const note& n) {
    m.add_note(data(n));
    all.insert(n);
    if(start(n) >= prev)
      pending.insert(n);
  };
  auto remove = [&](const note& n) {
    m.remove_note(data(n));
    auto drop = [&](std::multiset<note>& s) {
      auto it = s.find(n);
      if(it == s.end())
        return false;
      s.erase(it);
      return true;
    };
    drop(all);
    drop(pending);
    if(drop(playing))
      stopping.insert(n);
  };
  auto some = [&] {
    if(all.empty() || c.chance(1, 8))
      return gen();
    return *std::next(all.begin(), (int)c.draw(all.size()));
  };
  for(std::size_t i = 0; c.more(i, 40, 18); i++)
  {
    switch(c.weighted({10, 3, 2, 1, 1, 1, 1}))
    {
      case 1: {
        auto n = gen();
        VF_NOTE("add " << show(n));
        add(n);
        break;
      }
      case 2: {
        auto n = some();
        VF_NOTE("remove " << show(n));
        remove(n);
        break;
      }
      case 3: {
        auto n = some(), k = gen();
        if(!all.count(n))
          break;
        VF_NOTE("update " << show(n) << " to " << show(k));
        m.update_note(data(n), data(k));
        auto w = all;
        // as if removed and added
        {
          auto drop = [&](std::multiset<note>& s) {
            auto it = s.find(n);
            if(it == s.end())
              return false;
            s.erase(it);
            return true;
          };
          drop(all);
          drop(pending);
          if(drop(playing))
            stopping.insert(n);
        }
        all.insert(k);
        if(start(k) >= prev)
          pending.insert(k);
        break;
      }
      case 4: {
        nodes::midi::note_set s;
        all.clear();
        pending.clear();
        for(std::size_t k = 0; c.more(k, 8, 4); k++)
        {
          auto n = gen();
          s.insert(data(n));
          all.insert(n);
          if(start(n) >= prev)
            pending.insert(n);
          VF_NOTE("set " << show(n));
        }
        m.set_notes(std::move(s));
        break;
      }
      case 5: {
        target = c.coin() ? c.range(0, 200) : 0;
        VF_NOTE("move to " << target);
        m.transport(time_value{target});
        moving = true;
        break;
      }
      default: {
        const bool stop = c.chance(1, 12);
        token_request t;
        if(stop)
        {
          m.mustStop = true;
          VF_NOTE("stop");
        }
        else
          t = r.tick(c, 60);
        if(resume)
          m.doTransport = true;
        port.messages.clear();
        run(m, t, r);
        std::multiset<sent> want, got;
        const int64_t first = t.physical_start(r.st.modelToSamplesRatio);
        auto at = [&](int64_t d) { return (int64_t)t.to_physical_time_in_tick(d, r.st.modelToSamplesRatio); };
        auto on = [&](const note& n, int64_t when) {
          want.insert({0x90 | (channel - 1), std::get<2>(n), std::get<3>(n), when});
          ons++;
        };
        auto off = [&](const note& n, int64_t when) { want.insert({0x80 | (channel - 1), std::get<2>(n), 0, when}); };
        for(auto& n : stopping)
          off(n, first);
        stopping.clear();
        if(stop)
        {
          for(auto& n : playing)
            off(n, first);
          playing.clear();
          pending = all;
          r.now = 0;
        }
        else
        {
          if(resume && !(pending.empty() && playing.empty()))
          {
            for(auto it = pending.begin(); it != pending.end() && start(*it) < t.date.impl;)
            {
              on(*it, first);
              playing.insert(*it);
              it = pending.erase(it);
            }
          }
          for(auto it = playing.begin(); it != playing.end();)
            if(end(*it) >= t.prev_date.impl && end(*it) < t.date.impl)
            {
              off(*it, at(end(*it)));
              it = playing.erase(it);
            }
            else
              ++it;
          for(auto it = pending.begin(); it != pending.end();)
            if(start(*it) >= t.prev_date.impl && start(*it) < t.date.impl)
            {
              on(*it, at(start(*it)));
              if(end(*it) < t.date.impl)
                off(*it, at(end(*it)));
              else
                playing.insert(*it);
              it = pending.erase(it);
            }
            else
              ++it;
        }
        for(auto& x : port.messages)
        {
          VF_CHECK(x.bytes.size() == 3, "a message of " << x.bytes.size() << " bytes");
          got.insert({x.bytes[0], x.bytes[1], x.bytes[2], (int64_t)x.timestamp});
        }
        VF_CHECK(got == want, "sent: " << show(got) << " instead of: " << show(want));
        resume = false;
        m.doTransport = false;
        prev = t.date.impl;
        if(moving)
        {
          moving = false;
          stopping.insert(playing.begin(), playing.end());
          playing.clear();
          pending.clear();
          for(auto& n : all)
            if(start(n) >= target || end(n) > target)
              pending.insert(n);
          prev = target;
          r.now = target;
          resume = c.chance(1, 4);
        }
        break;
      }
    }
  }
  // nothing sounds in the end
  m.mustStop = true;
  port.messages.clear();
  run(m, {}, r);
  std::multiset<int> left, offs;
  for(auto& n : playing)
    left.insert(std::get<2>(n));
  for(auto& n : stopping)
    left.insert(std::get<2>(n));
  for(auto& x : port.messages)
    offs.insert(x.bytes[1]);
  VF_CHECK(left == offs, offs.size() << " notes stopped at the end instead of " << left.size());
  c.nontrivial(ons >= 3);
}
