// C28: the dataflow graph: what runs, in which order, with which data, and what
// the parameters receive.
#include "gen_value.hpp"
#include "vf.hpp"

#include <ossia/dataflow/dataflow.hpp>
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/graph/graph_interface.hpp>
#include <ossia/dataflow/graph_edge.hpp>
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/dataflow/port.hpp>
#include <ossia/editor/state/state_element.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/generic/generic_device.hpp>

#include <algorithm>
#include <set>

using namespace ossia;
using namespace ossia::net;

const char* const vf::rule
    = "graphs of up to eight nodes (value, audio and midi ports, addresses with scopes and patterns, all kinds of "
      "connections) and histories of changes, writes and ticks on every scheduler, compared with a reference which "
      "replays the order observed after having checked that order; non-trivial: a tick where at least two nodes that "
      "exchange data run";

namespace
{
struct sink_protocol : protocol_base
{
  std::vector<std::pair<const parameter_base*, ossia::value>>& log;
  explicit sink_protocol(std::vector<std::pair<const parameter_base*, ossia::value>>& l)
      : protocol_base{flags{}}
      , log(l)
  {
  }
  bool pull(parameter_base&) override { return true; }
  bool push(const parameter_base& p, const ossia::value& v) override
  {
    log.emplace_back(&p, v);
    return true;
  }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(node_base&) override { return true; }
};

struct tv
{
  int v{};
  int64_t ts{};
  bool operator==(const tv& o) const { return v == o.v && ts == o.ts; }
};
struct content
{
  std::vector<tv> values;
  std::vector<std::vector<double>> audio;
  std::vector<int> midi;
  bool operator==(const content& o) const
  {
    return values == o.values && audio == o.audio && midi == o.midi;
  }
  bool empty() const { return values.empty() && audio.empty() && midi.empty(); }
};
std::string show(const content& c)
{
  std::ostringstream s;
  for(auto& v : c.values)
    s << v.v << "@" << v.ts << " ";
  for(auto& ch : c.audio)
  {
    s << "[";
    for(double d : ch)
      s << d << " ";
    s << "]";
  }
  for(int m : c.midi)
    s << "m" << m << " ";
  return s.str();
}
// the channels that remain empty do not matter
void trim(content& c)
{
  while(!c.audio.empty() && c.audio.back().empty())
    c.audio.pop_back();
}
int as_int(const ossia::value& v)
{
  if(auto i = v.target<int>())
    return *i;
  return -1;
}
struct reader
{
  content& c;
  void operator()(const value_port& p) const
  {
    for(auto& v : p.get_data())
      c.values.push_back({as_int(v.value), v.timestamp});
  }
  void operator()(const audio_port& p) const
  {
    for(auto& ch : p.samples)
      c.audio.emplace_back(ch.begin(), ch.end());
  }
  void operator()(const midi_port& p) const
  {
    for(auto& m : p.messages)
      c.midi.push_back(m.bytes.at(1));
  }
  void operator()() const { }
};
template <typename T>
content read(const T& port)
{
  content c;
  port.visit(reader{c});
  trim(c);
  return c;
}
void mix(content& into, const content& from, bool replace)
{
  for(auto& v : from.values)
  {
    auto it = std::find_if(into.values.begin(), into.values.end(), [&](auto& x) { return x.ts == v.ts; });
    if(replace && it != into.values.end())
      it->v = v.v;
    else
      into.values.push_back(v);
  }
  if(into.audio.size() < from.audio.size())
    into.audio.resize(from.audio.size());
  for(std::size_t k = 0; k < from.audio.size(); k++)
  {
    if(into.audio[k].size() < from.audio[k].size())
      into.audio[k].resize(from.audio[k].size());
    for(std::size_t i = 0; i < from.audio[k].size(); i++)
      into.audio[k][i] += from.audio[k][i];
  }
  into.midi.insert(into.midi.end(), from.midi.begin(), from.midi.end());
}

enum kind
{
  AUDIO,
  MIDI,
  VALUE
};

struct tnode;
struct run_log
{
  std::vector<tnode*> order;
};
struct tnode final : graph_node
{
  run_log& log;
  int id;
  // what it will write
  std::vector<content> plan;
  // what it saw
  int runs{};
  std::vector<content> in;
  std::vector<content> written;
  std::vector<token_request> tokens;

  tnode(run_log& l, int i)
      : log(l)
      , id(i)
  {
  }
  std::string label() const noexcept override { return "n" + std::to_string(id); }
  void run(const token_request& t, exec_state_facade) noexcept override
  {
    tokens.push_back(t);
    if(runs++)
      return;
    log.order.push_back(this);
    in.clear();
    for(auto p : m_inlets)
      in.push_back(read(*p));
    written.clear();
    for(std::size_t k = 0; k < m_outlets.size(); k++)
    {
      auto& o = *m_outlets[k];
      auto& w = plan[k];
      if(auto p = o.target<value_port>())
        for(auto& v : w.values)
          p->write_value(v.v, v.ts);
      else if(auto p = o.target<midi_port>())
        for(int m : w.midi)
        {
          libremidi::message msg;
          msg.bytes = {0x90, (uint8_t)m, 100};
          p->messages.push_back(msg);
        }
      else if(auto p = o.target<audio_port>())
      {
        p->samples.resize(std::max(p->samples.size(), w.audio.size()));
        for(std::size_t c = 0; c < w.audio.size(); c++)
          p->samples[c].assign(w.audio[c].begin(), w.audio[c].end());
      }
      written.push_back(read(o));
    }
  }
};

struct edge_m
{
  std::weak_ptr<graph_edge> p;
  graph_edge* raw{};
  int kind{}; // 0 glutton, 1 strict, 2 delayed glutton, 3 delayed strict, 4 dependency
  int sides{};
  int a{}, b{};   // nodes
  int out{}, in{}; // ports; in == -1 - k: the gain of audio outlet k of b
  std::vector<content> line;
  std::size_t pos{};
};
struct port_m
{
  int scope{3};
  std::vector<int> params; // in the order they are visited
  bool replace{};
  bool event{};
  bool registered{};
};
struct node_m
{
  std::shared_ptr<tnode> p;
  bool in_graph{};
  std::vector<kind> ins, outs;
  std::vector<port_m> in, out;
  std::vector<double> gain;
  bool muted{};
  bool jump_start{}, jump_end{}; // announced to the next token
};

struct setup
{
  vf::Case& c;
  std::vector<std::pair<const parameter_base*, ossia::value>> pushed;
  generic_device dev{std::make_unique<sink_protocol>(pushed), "dev"};
  std::vector<parameter_base*> params;
  std::vector<double> priorities;
  run_log log;
  execution_state st;
  std::shared_ptr<graph_interface> g;
  std::vector<node_m> nodes;
  std::vector<edge_m> edges; // in the order of creation
  std::vector<std::vector<int>> received; // since the previous tick, for each parameter
  std::map<int, int> listeners;
  int uid{1};
  int sched{};
  bool cyclic_once{};

  explicit setup(vf::Case& cc)
      : c(cc)
  {
    static const char* names[] = {"p1", "p2", "p3", "q1"};
    for(auto n : names)
    {
      auto& nd = ossia::net::create_node(dev, std::string("/") + n);
      params.push_back(nd.create_parameter(val_type::INT));
      params.back()->set_value(int(-100 - (int)params.size()));
      // commit_priorized sends them by priority
      if(c.chance(1, 3))
      {
        priorities.push_back(c.pick({0.f, 1.f, 2.f, 0.25f, 1.5f, -1.f}));
        set_priority(nd, (float)priorities.back());
      }
      else
        priorities.push_back(0);
    }
    received.resize(params.size());
    st.register_device(&dev);
    st.begin_tick();
  }
  ~setup()
  {
    if(g)
      g->clear();
    g.reset();
  }
  int param_index(const parameter_base* p) const
  {
    for(std::size_t i = 0; i < params.size(); i++)
      if(params[i] == p)
        return (int)i;
    return -1;
  }
  template <typename Port>
  port_m address(Port& p, bool value)
  {
    port_m m;
    m.replace = value && c.chance(1, 4);
    if(value && c.chance(2, 3))
    {
      p.scope = c.pick({port::both, port::both, port::local, port::global, port::none});
      m.scope = (p.scope & port::local ? 1 : 0) | (p.scope & port::global ? 2 : 0);
      switch(c.draw(4))
      {
        case 0: {
          auto path = traversal::make_path(c.coin() ? "dev:/p*" : "dev:/?1");
          if(path)
          {
            std::vector<node_base*> roots{&dev.get_root_node()};
            traversal::apply(*path, roots);
            for(auto n : roots)
              if(auto q = n->get_parameter())
                m.params.push_back(param_index(q));
            p.address = *path;
          }
          break;
        }
        default: {
          const int k = (int)c.draw(params.size());
          m.params.push_back(k);
          p.address = params[k];
          break;
        }
      }
    }
    return m;
  }
  void make_node()
  {
    node_m n;
    n.p = std::make_shared<tnode>(log, (int)nodes.size());
    const int ni = (int)c.range(0, 2), no = (int)c.range(0, 2);
    for(int i = 0; i < ni; i++)
    {
      const kind k = c.pick({VALUE, VALUE, AUDIO, MIDI});
      n.ins.push_back(k);
      if(k == VALUE)
      {
        auto in = new value_inlet;
        n.in.push_back(address(*in, true));
        (*in)->mix_method = n.in.back().replace ? data_mix_method::mix_replace : data_mix_method::mix_append;
        n.in.back().event = (*in)->is_event = c.chance(1, 4);
        n.p->root_inputs().push_back(in);
        st.register_port(*in);
        if(n.in.back().event)
        {
          n.in.back().registered = true;
          for(int k : n.in.back().params)
            listeners[k]++;
        }
      }
      else
      {
        n.in.emplace_back();
        if(k == AUDIO)
          n.p->root_inputs().push_back(new audio_inlet);
        else
          n.p->root_inputs().push_back(new midi_inlet);
      }
    }
    for(int i = 0; i < no; i++)
    {
      const kind k = c.pick({VALUE, VALUE, AUDIO, MIDI});
      n.outs.push_back(k);
      n.gain.push_back(1);
      if(k == VALUE)
      {
        auto o = new value_outlet;
        n.out.push_back(address(*o, true));
        (*o)->mix_method = n.out.back().replace ? data_mix_method::mix_replace : data_mix_method::mix_append;
        n.p->root_outputs().push_back(o);
      }
      else
      {
        n.out.emplace_back();
        if(k == AUDIO)
          n.p->root_outputs().push_back(new audio_outlet);
        else
          n.p->root_outputs().push_back(new midi_outlet);
      }
    }
    n.in_graph = true;
    g->add_node(n.p);
    nodes.push_back(std::move(n));
  }
  // explicit edges only go from lower to greater nodes
  void make_edge()
  {
    std::vector<int> in;
    for(std::size_t k = 0; k < nodes.size(); k++)
      if(nodes[k].in_graph)
        in.push_back((int)k);
    if(in.size() < 2)
      return;
    int a = (int)c.draw(in.size()), b = (int)c.draw(in.size());
    if(a == b)
      return;
    if(a > b)
      std::swap(a, b);
    edge_m e;
    e.a = in[a], e.b = in[b];
    auto &A = nodes[e.a], &B = nodes[e.b];
    if(c.chance(1, 8))
    {
      e.kind = 4;
      auto p = ossia::make_edge(dependency_connection{}, outlet_ptr{}, inlet_ptr{}, A.p, B.p);
      e.p = p, e.raw = p.get();
      g->connect(p);
      edges.push_back(e);
      return;
    }
    std::vector<std::pair<int, int>> possible;
    for(std::size_t o = 0; o < A.outs.size(); o++)
    {
      for(std::size_t i = 0; i < B.ins.size(); i++)
        if(A.outs[o] == B.ins[i])
          possible.emplace_back((int)o, (int)i);
      if(A.outs[o] == VALUE)
        for(std::size_t i = 0; i < B.outs.size(); i++)
          if(B.outs[i] == AUDIO)
            possible.emplace_back((int)o, -1 - (int)i);
    }
    if(possible.empty())
      return;
    std::tie(e.out, e.in) = possible[c.draw(possible.size())];
    e.kind = c.pick({0, 0, 0, 1, 1, 2, 3});
    connection con;
    switch(e.kind)
    {
      case 0: con = immediate_glutton_connection{}; break;
      case 1: {
        using T = immediate_strict_connection;
        e.sides = c.pick({3, 3, 1, 2});
        con = T{(T::required_sides_t)e.sides};
        break;
      }
      case 2: con = delayed_glutton_connection{}; break;
      case 3: con = delayed_strict_connection{}; break;
    }
    inlet_ptr in_p = e.in >= 0 ? B.p->root_inputs()[e.in]
                               : &static_cast<audio_outlet*>(B.p->root_outputs()[-1 - e.in])->gain_inlet;
    auto p = ossia::make_edge(con, A.p->root_outputs()[e.out], in_p, A.p, B.p);
    e.p = p, e.raw = p.get();
    g->connect(p);
    edges.push_back(e);
  }
  void drop_edge(std::size_t k)
  {
    if(c.coin())
      g->disconnect(edges[k].raw);
    else if(auto p = edges[k].p.lock())
      g->disconnect(p);
    edges.erase(edges.begin() + k);
  }
  // an inlet which listens to a parameter stops or starts to
  void listen(int k)
  {
    auto& n = nodes[k];
    for(std::size_t i = 0; i < n.in.size(); i++)
      if(n.in[i].event && c.chance(2, 3))
      {
        if(n.in[i].registered)
          st.unregister_port(*n.p->root_inputs()[i]);
        else
          st.register_port(*n.p->root_inputs()[i]);
        for(int q : n.in[i].params)
          listeners[q] += n.in[i].registered ? -1 : 1;
        n.in[i].registered = !n.in[i].registered;
      }
  }
  void drop_node(int k)
  {
    g->remove_node(nodes[k].p);
    nodes[k].in_graph = false;
    edges.erase(
        std::remove_if(edges.begin(), edges.end(), [&](auto& e) { return e.a == k || e.b == k; }), edges.end());
  }

  // --- the reference
  struct env_entry
  {
    int v;
    int64_t ts;
    int idx;
  };
  std::map<int, std::vector<env_entry>> env;
  int msg_index{};
  std::vector<bool> requested;

  std::vector<bool> enabled_after_strict() const
  {
    std::vector<bool> on = requested;
    for(;;)
    {
      std::vector<int> off;
      for(std::size_t k = 0; k < nodes.size(); k++)
      {
        if(!on[k])
          continue;
        bool dis = nodes[k].muted;
        for(auto& e : edges)
        {
          if(e.kind == 1)
          {
            if(e.b == (int)k && (e.sides & 2) && !on[e.a])
              dis = true;
            if(e.a == (int)k && (e.sides & 1) && !on[e.b])
              dis = true;
          }
          else if(e.kind == 3 && e.b == (int)k)
          {
            if(e.pos >= e.line.size())
              dis = true;
          }
        }
        if(dis)
          off.push_back((int)k);
      }
      if(off.empty())
        return on;
      for(int k : off)
        on[k] = false;
    }
  }
  content pull(const port_m& p)
  {
    content r;
    for(int k : p.params)
    {
      auto& e = env[k];
      if((p.scope & 1) && !e.empty())
      {
        content x;
        for(auto& v : e)
          x.values.push_back({v.v, v.ts});
        mix(r, x, p.replace);
      }
      else if(p.scope & 2)
      {
        content x;
        if(!p.event)
          x.values.push_back({as_int(now[k]), 0});
        else
          for(int v : got[k])
            x.values.push_back({v, 0});
        mix(r, x, p.replace);
      }
    }
    return r;
  }
  std::map<int, ossia::value> now;   // values of the parameters
  std::map<int, std::vector<int>> got; // what events see in this tick
  std::vector<std::vector<int>> expect_push;

  void tick(bool& flowing)
  {
    requested.assign(nodes.size(), false);
    int64_t d = c.range(0, 1000);
    std::vector<std::vector<token_request>> toks(nodes.size());
    for(auto& n : nodes)
    {
      n.p->runs = 0;
      n.p->tokens.clear();
      n.p->plan.clear();
      for(auto k : n.outs)
      {
        content w;
        switch(k)
        {
          case VALUE:
            for(int i = 0, N = (int)c.range(0, 3); i < N; i++)
              w.values.push_back({uid++, c.range(0, 2)});
            break;
          case MIDI:
            for(int i = 0, N = (int)c.range(0, 2); i < N; i++)
              w.midi.push_back(uid++ & 127);
            break;
          case AUDIO:
            for(int i = 0, N = (int)c.range(0, 3); i < N; i++)
            {
              w.audio.emplace_back();
              for(int s = 0, S = (int)c.range(0, 4); s < S; s++)
                w.audio.back().push_back(uid++ % 1000);
            }
            break;
        }
        n.p->plan.push_back(std::move(w));
      }
    }
    st.begin_tick();
    got.clear();
    for(std::size_t k = 0; k < params.size(); k++)
    {
      if(!received[k].empty() || listeners[(int)k])
        got[(int)k] = received[k];
      received[k].clear();
      now[(int)k] = params[k]->value();
    }
    for(std::size_t k = 0; k < nodes.size(); k++)
    {
      auto& n = nodes[k];
      if(!n.in_graph)
        continue;
      if(c.chance(1, 8))
      {
        n.muted = !n.muted;
        n.p->set_mute(n.muted);
      }
      if(c.chance(1, 10))
        n.p->set_start_discontinuous(n.jump_start = true);
      if(c.chance(1, 10))
        n.p->set_end_discontinuous(n.jump_end = true);
      if(c.chance(3, 4))
      {
        requested[k] = true;
        for(int i = 0, N = (int)c.range(1, 2); i < N; i++)
        {
          token_request t{};
          t.prev_date = time_value{d + i};
          t.date = time_value{d + i + 1};
          toks[k].push_back(t);
          n.p->request(t);
        }
      }
    }
    log.order.clear();
    pushed.clear();
    expect_push.assign(params.size(), {});
    env.clear();
    msg_index = 0;

    auto on = enabled_after_strict();
    g->state(st);

    // --- what runs
    std::map<int, int> rank;
    for(auto n : log.order)
      rank[n->id] = (int)rank.size();
    std::ostringstream o;
    for(auto n : log.order)
      o << "n" << n->id << " ";
    VF_NOTE("executed: " << o.str());
    for(std::size_t k = 0; k < nodes.size(); k++)
    {
      VF_CHECK(
          (nodes[k].p->runs > 0) == on[k],
          "node " << k << (on[k] ? " did not run" : " ran") << (requested[k] ? " (requested)" : ""));
      VF_CHECK(!on[k] || nodes[k].p->runs == (int)toks[k].size(), "node " << k << " ran " << nodes[k].p->runs << " times");
      for(std::size_t i = 0; on[k] && i < toks[k].size(); i++)
      {
        auto& t = nodes[k].p->tokens[i];
        VF_CHECK(t.prev_date == toks[k][i].prev_date, "node " << k << " got other tokens");
        VF_CHECK(
            t.start_discontinuous == (i == 0 && nodes[k].jump_start)
                && t.end_discontinuous == (i == 0 && nodes[k].jump_end),
            "node " << k << " is not told about discontinuities once, by its first token");
      }
      if(on[k])
        nodes[k].jump_start = nodes[k].jump_end = false;
      VF_CHECK(!nodes[k].in_graph || nodes[k].p->requested_tokens.empty(), "the tokens of node " << k << " are still there");
    }

    // --- the order
    auto links = [&](int a, int b) {
      for(auto& x : nodes[a].out)
        for(auto& y : nodes[b].in)
          for(int p : x.params)
            for(int q : y.params)
              if(p == q)
                return true;
      return false;
    };
    const int N = (int)nodes.size();
    std::vector<std::vector<char>> reach(N, std::vector<char>(N)), direct = reach;
    for(auto& e : edges)
      reach[e.a][e.b] = direct[e.a][e.b] = 1;
    const bool by_address = sched == graph_setup_options::StaticBFS || sched == graph_setup_options::StaticTC;
    if(by_address)
      for(int a = 0; a < N; a++)
        for(int b = 0; b < N; b++)
          if(a != b && nodes[a].in_graph && nodes[b].in_graph && links(a, b))
            reach[a][b] = 1;
    for(int k = 0; k < N; k++)
      for(int i = 0; i < N; i++)
        for(int j = 0; j < N; j++)
          if(reach[i][k] && reach[k][j])
            reach[i][j] = 1;
    bool exchange = false;
    for(int a = 0; a < N; a++)
      for(int b = 0; b < N; b++)
        if(a != b && on[a] && on[b])
        {
          if(direct[a][b])
          {
            exchange = true;
            VF_CHECK(rank[a] < rank[b], "node " << b << " ran before node " << a << " it depends on");
          }
          else if(by_address && links(a, b) && !reach[b][a])
          {
            exchange = true;
            VF_CHECK(
                rank[a] < rank[b], "node " << b << " ran before node " << a << " which writes what it reads");
          }
        }
    flowing = flowing || exchange;

    // --- the data
    for(auto n : log.order)
    {
      auto& m = nodes[n->id];
      auto gather = [&](int port, const port_m& p) {
        bool copy = true, any = false;
        for(auto& e : edges)
          if(e.kind != 4 && e.b == n->id && e.in == port)
          {
            if(!any)
              copy = false, any = true;
            copy = copy || (e.kind == 0 && !on[e.a]);
          }
        content r;
        if(copy)
          r = pull(p);
        for(auto& e : edges)
          if(e.kind != 4 && e.b == n->id && e.in == port)
          {
            if(e.kind <= 1)
            {
              if(on[e.a])
                mix(r, outs[e.a][e.out], p.replace);
            }
            else
            {
              if(e.pos < e.line.size())
                mix(r, e.line[e.pos], p.replace);
              e.pos++;
            }
          }
        trim(r);
        return r;
      };
      for(std::size_t i = 0; i < m.ins.size(); i++)
      {
        auto x = gather((int)i, m.in[i]);
        VF_CHECK(
            x == n->in[i],
            "inlet " << i << " of node " << n->id << " got " << show(n->in[i]) << ", expected " << show(x));
      }
      auto& w = outs[n->id];
      w = n->written;
      for(std::size_t i = 0; i < m.outs.size(); i++)
      {
        content expected;
        mix(expected, n->plan[i], m.out[i].replace);
        trim(expected);
        VF_CHECK(expected == w[i], "outlet " << i << " of node " << n->id << " holds " << show(w[i]) << " before it is sent, expected " << show(expected));
        if(m.outs[i] == AUDIO)
        {
          port_m none;
          auto x = gather(-1 - (int)i, none);
          if(!x.values.empty())
            m.gain[i] = x.values.back().v;
          for(auto& ch : w[i].audio)
            for(auto& s : ch)
              s *= m.gain[i];
        }
        bool any = false, copy = false;
        for(auto& e : edges)
          if(e.kind != 4 && e.a == n->id && e.out == (int)i)
          {
            any = true;
            if(e.kind == 0)
              copy = copy || !on[e.b];
            else if(e.kind >= 2)
              e.line.push_back(w[i]);
          }
        if(any && !copy)
          continue;
        for(int k : m.out[i].params)
        {
          if(w[i].values.empty())
            continue;
          if(m.out[i].scope & 1)
          {
            int idx = msg_index;
            auto& E = env[k];
            for(auto& v : w[i].values)
            {
              auto it = std::find_if(E.begin(), E.end(), [&](auto& x) { return x.ts == v.ts; });
              if(m.out[i].replace && it != E.end())
                it->v = v.v;
              else
                E.push_back({v.v, v.ts, idx++});
            }
            msg_index += (int)w[i].values.size();
          }
          else if(m.out[i].scope & 2)
          {
            for(auto& v : w[i].values)
            {
              expect_push[k].push_back(v.v);
              now[k] = v.v;
            }
          }
        }
      }
    }
    for(std::size_t k = 0; k < nodes.size(); k++)
      if(nodes[k].in_graph)
        for(auto& p : nodes[k].p->root_outputs())
          VF_CHECK(read(*p).empty(), "an outlet of node " << k << " still holds " << show(read(*p)));

    // --- the commit
    const std::size_t before = pushed.size();
    const int how = (int)c.draw(4);
    switch(how)
    {
      case 0: st.commit(); break;
      case 1: st.commit_ordered(); break;
      case 2: st.commit_priorized(); break;
      case 3: st.commit_merged(); break;
    }
    for(auto& [k, E] : env)
    {
      if(how == 3 && !E.empty())
        expect_push[k].push_back(E.back().v);
      else
        for(auto& e : E)
          expect_push[k].push_back(e.v);
    }
    std::vector<std::vector<int>> real(params.size());
    std::vector<int> sequence;
    for(std::size_t i = 0; i < pushed.size(); i++)
    {
      const int k = param_index(pushed[i].first);
      VF_CHECK(k >= 0, "a push to something else");
      real[k].push_back(as_int(pushed[i].second));
      if(i >= before && (sequence.empty() || sequence.back() != k))
        sequence.push_back(k);
    }
    auto text = [](const std::vector<int>& v) {
      std::string s;
      for(int i : v)
        s += std::to_string(i) + " ";
      return s;
    };
    for(std::size_t k = 0; k < params.size(); k++)
    {
      VF_CHECK(
          real[k] == expect_push[k], "parameter " << k << " was sent " << text(real[k]) << ", expected "
                                                  << text(expect_push[k]) << " with commit " << how);
      if(listeners[(int)k])
        received[k].insert(received[k].end(), real[k].begin(), real[k].end());
      if(!real[k].empty())
        VF_CHECK(as_int(params[k]->value()) == real[k].back(), "parameter " << k << " does not have the last value sent");
    }
    if(how == 1 || how == 2)
    {
      std::vector<std::tuple<double, int64_t, int, int>> keys;
      for(auto& [k, E] : env)
        if(!E.empty())
        {
          int64_t ts = 0;
          int idx = 0;
          for(auto& e : E)
            ts = std::max(ts, e.ts), idx = std::max(idx, e.idx);
          keys.emplace_back(how == 2 ? priorities[k] : 0., ts, idx, k);
        }
      std::sort(keys.begin(), keys.end());
      std::vector<int> wanted;
      for(auto& t : keys)
        wanted.push_back(std::get<3>(t));
      VF_CHECK(sequence == wanted, "parameters were sent in the order " << text(sequence) << ", expected " << text(wanted));
    }
  }
  std::map<int, std::vector<content>> outs;
  void write(int k)
  {
    const int v = uid++;
    params[k]->set_value(v);
    if(listeners[k])
      received[k].push_back(v);
  }
};
}

static void history(vf::Case& c, int sched)
{
  setup s{c};
  graph_setup_options opt;
  s.sched = sched;
  opt.scheduling = (decltype(opt.scheduling))sched;
  s.g = make_graph(opt);
  const int n = (int)c.range(2, 6);
  for(int i = 0; i < n; i++)
    s.make_node();
  for(int i = 0, N = (int)c.range(0, 2 * n); i < N; i++)
    s.make_edge();
  bool flowing = false;
  for(int t = 0, N = (int)c.range(1, 6); t < N; t++)
  {
    while(c.chance(1, 2))
      switch(c.draw(7))
      {
        case 6: s.listen((int)c.draw(s.nodes.size())); break;
        case 0:
        case 1: s.write((int)c.draw(s.params.size())); break;
        case 2: s.make_edge(); break;
        case 3:
          if(!s.edges.empty())
            s.drop_edge(c.draw(s.edges.size()));
          break;
        case 4:
          if(s.nodes.size() < 8)
            s.make_node();
          break;
        case 5: {
          const int k = (int)c.draw(s.nodes.size());
          if(s.nodes[k].in_graph)
            s.drop_node(k);
          break;
        }
      }
    VF_CHECK(
        (std::size_t)std::count_if(s.nodes.begin(), s.nodes.end(), [](auto& n) { return n.in_graph; })
            == s.g->get_nodes().size(),
        "get_nodes() gives " << s.g->get_nodes().size() << " nodes");
    s.tick(flowing);
  }
  c.nontrivial(flowing);
}

VF_PROP(fixed, 20000, 300000)
{
  history(c, graph_setup_options::StaticFixed);
}
VF_PROP(breadth_first, 20000, 300000)
{
  history(c, graph_setup_options::StaticBFS);
}
VF_PROP(transitive, 20000, 300000)
{
  history(c, graph_setup_options::StaticTC);
}
VF_PROP(dynamic, 20000, 300000)
{
  history(c, graph_setup_options::Dynamic);
}

// A graph with a cycle is refused without harm, and runs again without it
VF_PROP(cycles, 3000, 30000)
{
  run_log log;
  execution_state st;
  graph_setup_options opt;
  const int sched = c.pick({(int)graph_setup_options::StaticFixed, (int)graph_setup_options::StaticBFS,
                            (int)graph_setup_options::StaticTC, (int)graph_setup_options::Dynamic});
  opt.scheduling = (decltype(opt.scheduling))sched;
  auto g = make_graph(opt);
  std::vector<std::shared_ptr<tnode>> nodes;
  const int N = (int)c.range(2, 5);
  for(int i = 0; i < N; i++)
  {
    auto n = std::make_shared<tnode>(log, i);
    if(c.coin())
    {
      n->root_inputs().push_back(new value_inlet);
      n->root_outputs().push_back(new value_outlet);
      n->plan.resize(1);
    }
    g->add_node(n);
    nodes.push_back(n);
  }
  std::vector<std::pair<int, int>> order;
  auto link = [&](int a, int b) {
    std::shared_ptr<graph_edge> e;
    if(c.coin() && !nodes[a]->root_outputs().empty() && !nodes[b]->root_inputs().empty())
      e = ossia::make_edge(
          immediate_glutton_connection{}, nodes[a]->root_outputs()[0], nodes[b]->root_inputs()[0], nodes[a], nodes[b]);
    else
      e = ossia::make_edge(dependency_connection{}, outlet_ptr{}, inlet_ptr{}, nodes[a], nodes[b]);
    g->connect(e);
    return e;
  };
  for(int k = 0, E = (int)c.range(1, 5); k < E; k++)
  {
    const int a = (int)c.range(0, N - 2), b = (int)c.range(a + 1, N - 1);
    link(a, b);
    order.emplace_back(a, b);
  }
  auto tick = [&] {
    log.order.clear();
    st.begin_tick();
    for(auto& n : nodes)
    {
      n->runs = 0;
      token_request t{};
      t.date = time_value{1};
      n->request(t);
    }
    std::ostringstream drop;
    auto old = std::cout.rdbuf(drop.rdbuf());
    g->state(st);
    std::cout.rdbuf(old);
    st.commit();
  };
  auto fine = [&] {
    tick();
    std::map<int, int> rank;
    for(auto n : log.order)
      rank.emplace(n->id, (int)rank.size());
    VF_CHECK((int)rank.size() == N, rank.size() << " nodes out of " << N << " ran without a cycle");
    for(auto [a, b] : order)
      VF_CHECK(rank[a] < rank[b], "node " << b << " ran before node " << a << " it depends on");
  };
  if(c.coin())
    fine();
  for(int k = 0, K = (int)c.range(1, 2); k < K; k++)
  {
    auto [a, b] = order[c.draw(order.size())];
    auto back = link(b, a);
    for(int i = 0, T = (int)c.range(1, 2); i < T; i++)
      tick();
    g->disconnect(back);
    fine();
    fine();
  }
  g->clear();
  c.nontrivial();
}
