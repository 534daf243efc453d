// C21: expressions: what they evaluate to, what their observers are told, what they observe.
#include "gen_value.hpp"
#include "vf.hpp"

#include <ossia/editor/expression/expression.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/dataspace/dataspace.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/value/destination.hpp>
#include <ossia/network/value/value_algorithms.hpp>

#include <list>

using namespace ossia;
using namespace ossia::net;
namespace ex = ossia::expressions;

const char* const vf::rule
    = "trees of up to 15 expressions (comparisons of values and parameters, whole, at an index or in another unit, "
      "pulses, not, and, or, xor, constants, user-defined ones) and histories of values, updates, observers of any "
      "sub-expression and destructions; non-trivial: a composition or a negation over a parameter, and a value set while "
      "it is observed";

namespace
{
struct puller : protocol_base
{
  puller()
      : protocol_base{flags{}}
  {
  }
  std::map<parameter_base*, ossia::value> remote;
  std::map<parameter_base*, int> pulls;
  bool pull(parameter_base& p) override
  {
    pulls[&p]++;
    auto it = remote.find(&p);
    if(it != remote.end())
      p.set_value(it->second);
    return true;
  }
  bool push(const parameter_base&, const ossia::value&) override { return true; }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(node_base&) override { return true; }
};

struct operand
{
  int param = -1; // or a value
  ossia::value val;
  destination_index index;
  unit_t unit;
};

struct custom_state
{
  bool result = false;
  int updates = 0, listening = 0;
  ex::expression_generic* self{};
};
struct custom : ex::expression_generic_base
{
  custom_state& s;
  explicit custom(custom_state& s)
      : s{s}
  {
  }
  void update() override { s.updates++; }
  bool evaluate() const override { return s.result; }
  void on_first_callback_added(ex::expression_generic& g) override
  {
    s.listening++;
    s.self = &g;
  }
  void on_removing_last_callback(ex::expression_generic&) override { s.listening--; }
};

struct node
{
  enum kind
  {
    ATOM,
    BOOL,
    COMP,
    NOT,
    PULSE,
    CUSTOM
  } k{};
  operand a, b;
  ex::comparator cmp{};
  ex::binary_operator op{};
  bool val = false; // BOOL, PULSE
  std::unique_ptr<custom_state> cust;
  std::unique_ptr<node> l, r;
  ex::expression_base* e{};
  struct observer
  {
    ex::expression_callback_iterator it;
    int called = 0;
    bool last = false;
  };
  std::list<observer> observers;
};

struct world
{
  vf::Case& c;
  puller* proto{};
  std::unique_ptr<generic_device> dev;
  std::vector<parameter_base*> params;
  struct root
  {
    std::unique_ptr<node> n;
    ossia::expression_ptr e;
  };
  std::vector<root> roots;
  bool updating = false, combined = false;

  explicit world(vf::Case& c)
      : c{c}
  {
    auto p = std::make_unique<puller>();
    proto = p.get();
    dev = std::make_unique<generic_device>(std::move(p), "d");
    auto mk = [&](const char* n, val_type t) {
      params.push_back(dev->get_root_node().create_child(n)->create_parameter(t));
      return params.back();
    };
    mk("i", val_type::INT);
    mk("f", val_type::FLOAT);
    mk("g", val_type::FLOAT)->set_unit(linear_u{});
    mk("v", val_type::VEC3F);
    mk("l", val_type::LIST);
    mk("s", val_type::STRING);
  }

  ossia::value small(int param)
  {
    switch(param)
    {
      case 0: return (int)c.range(-2, 3);
      case 1: return (float)c.range(-2, 3) / 2.f;
      case 2: return c.pick({0.25f, 0.5f, 1.f, 2.f});
      case 3: return vec3f{(float)c.range(0, 2), (float)c.range(0, 2), (float)c.range(0, 2)};
      case 4: {
        std::vector<ossia::value> l;
        for(std::size_t i = 0; c.more(i, 4, 2); i++)
          l.push_back(small((int)c.draw(2)));
        return l;
      }
      default: return c.str(2, "ab");
    }
  }
  operand gen_operand()
  {
    operand o;
    if(c.chance(1, 3))
    {
      o.val = c.chance(1, 4) ? gv::to_value(gv::gen(c)) : small((int)c.draw(6));
      return o;
    }
    o.param = (int)c.draw(params.size());
    if(o.param >= 3 && o.param <= 4 && c.coin())
      o.index.push_back((int32_t)c.draw(4));
    if(o.param == 2 && c.coin())
      o.unit = c.coin() ? unit_t{decibel_u{}} : unit_t{linear_u{}};
    return o;
  }
  ossia::value now(const operand& o) const
  {
    if(o.param < 0)
      return o.val;
    auto v = params[o.param]->value();
    if(o.unit && o.unit != params[o.param]->get_unit())
      v = ossia::convert(v, params[o.param]->get_unit(), o.unit);
    if(o.index.empty())
      return v;
    std::size_t i = o.index[0];
    if(auto p = v.target<vec3f>())
      return i < 3 ? ossia::value{(*p)[i]} : ossia::value{};
    if(auto p = v.target<std::vector<ossia::value>>())
      return i < p->size() ? (*p)[i] : ossia::value{};
    return {};
  }
  ex::expression_atom::val_t real(const operand& o)
  {
    if(o.param < 0)
      return o.val;
    return destination{*params[o.param], o.index, o.unit};
  }
  ossia::expression_ptr build(node& n, int depth)
  {
    ossia::expression_ptr p;
    n.k = (node::kind)c.weighted({4, 1, depth < 3 ? 4 : 0, depth < 3 ? 2 : 0, 2, 1});
    switch(n.k)
    {
      case node::ATOM: {
        n.a = gen_operand();
        n.b = gen_operand();
        n.cmp = (ex::comparator)c.draw(6);
        if(n.a.param >= 0 && n.b.param < 0 && n.a.index.empty() && !n.a.unit && c.coin())
          p = ex::make_expression_atom(destination{*params[n.a.param]}, n.cmp, n.b.val);
        else if(n.a.param < 0 && n.b.param < 0)
          p = ex::make_expression_atom(n.a.val, n.cmp, n.b.val);
        else
          p = ex::make_expression_atom(real(n.a), n.cmp, real(n.b));
        break;
      }
      case node::BOOL:
        n.val = c.coin();
        p = c.coin() ? ex::make_expression_bool(n.val)
                     : n.val ? ex::make_expression_true() : ex::make_expression_false();
        break;
      case node::COMP: {
        n.op = (ex::binary_operator)c.draw(3);
        n.l = std::make_unique<node>();
        n.r = std::make_unique<node>();
        auto a = build(*n.l, depth + 1);
        auto b = build(*n.r, depth + 1);
        p = ex::make_expression_composition(std::move(a), n.op, std::move(b));
        break;
      }
      case node::NOT: {
        n.l = std::make_unique<node>();
        auto a = build(*n.l, depth + 1);
        p = ex::make_expression_not(std::move(a));
        break;
      }
      case node::PULSE:
        n.a.param = (int)c.draw(params.size());
        p = ex::make_expression_pulse(destination{*params[n.a.param]});
        break;
      case node::CUSTOM:
        n.cust = std::make_unique<custom_state>();
        p = ex::make_expression_generic<custom>(*n.cust);
        break;
    }
    n.e = p.get();
    return p;
  }
  // the same expression, or almost
  ossia::expression_ptr clone(const node& s, node& n, int changed)
  {
    if(c.chance(changed, 16))
      return build(n, 2);
    n.k = s.k;
    ossia::expression_ptr p;
    switch(n.k)
    {
      case node::ATOM:
        n.a = s.a;
        n.b = s.b;
        n.cmp = s.cmp;
        if(c.chance(changed, 16))
          n.cmp = (ex::comparator)c.draw(6);
        if(c.chance(changed, 16) && n.a.param >= 0)
          n.a.param = (int)c.draw(params.size());
        if(c.chance(changed, 16) && n.b.param >= 0)
          n.b.index = n.b.index.empty() ? destination_index{1} : destination_index{};
        p = ex::make_expression_atom(real(n.a), n.cmp, real(n.b));
        break;
      case node::BOOL:
        n.val = s.val;
        p = ex::make_expression_bool(n.val);
        break;
      case node::COMP: {
        n.op = c.chance(changed, 16) ? (ex::binary_operator)c.draw(3) : s.op;
        n.l = std::make_unique<node>();
        n.r = std::make_unique<node>();
        auto a = clone(*s.l, *n.l, changed);
        auto b = clone(*s.r, *n.r, changed);
        p = ex::make_expression_composition(std::move(a), n.op, std::move(b));
        break;
      }
      case node::NOT: {
        n.l = std::make_unique<node>();
        auto a = clone(*s.l, *n.l, changed);
        p = ex::make_expression_not(std::move(a));
        break;
      }
      case node::PULSE:
        n.a.param = c.chance(changed, 16) ? (int)c.draw(params.size()) : s.a.param;
        p = ex::make_expression_pulse(destination{*params[n.a.param]});
        break;
      case node::CUSTOM:
        n.cust = std::make_unique<custom_state>();
        p = ex::make_expression_generic<custom>(*n.cust);
        break;
    }
    n.e = p.get();
    return p;
  }
  static void all(node& n, std::vector<node*>& v)
  {
    v.push_back(&n);
    if(n.l)
      all(*n.l, v);
    if(n.r)
      all(*n.r, v);
  }
  std::vector<node*> nodes()
  {
    std::vector<node*> v;
    for(auto& r : roots)
      all(*r.n, v);
    return v;
  }
  bool eval(const node& n) const
  {
    switch(n.k)
    {
      case node::ATOM: {
        auto a = now(n.a), b = now(n.b);
        switch(n.cmp)
        {
          case ex::comparator::EQUAL: return a == b;
          case ex::comparator::DIFFERENT: return a != b;
          case ex::comparator::GREATER: return a > b;
          case ex::comparator::LOWER: return a < b;
          case ex::comparator::GREATER_EQUAL: return a >= b;
          default: return a <= b;
        }
      }
      case node::COMP: {
        bool a = eval(*n.l), b = eval(*n.r);
        return n.op == ex::binary_operator::AND ? a && b : n.op == ex::binary_operator::OR ? a || b : a != b;
      }
      case node::NOT: return !eval(*n.l);
      case node::CUSTOM: return n.cust->result;
      default: return n.val;
    }
  }
  // how many of the leaves under n hear of this parameter
  int leaves(const node& n, int p, bool valid_only) const
  {
    int k = 0;
    if(n.k == node::ATOM)
      for(auto o : {&n.a, &n.b})
        k += o->param == p && (!valid_only || now(*o).valid());
    if(n.k == node::PULSE)
      k += n.a.param == p;
    if(n.l)
      k += leaves(*n.l, p, valid_only);
    if(n.r)
      k += leaves(*n.r, p, valid_only);
    return k;
  }
  // observed: by someone, or by what it is in
  void observed(node& n, bool above, std::vector<int>& counts, std::vector<int>& pulses)
  {
    bool here = above || !n.observers.empty();
    if(n.k == node::ATOM && here)
      for(auto o : {&n.a, &n.b})
        if(o->param >= 0)
          counts[o->param]++;
    if(n.k == node::PULSE)
      counts[n.a.param]++;
    if(n.k == node::CUSTOM)
      VF_CHECK(n.cust->listening == (here ? 1 : 0), "a user-defined expression is told to listen " << n.cust->listening << " times");
    VF_CHECK(
        ex::callback_count(*n.e) == n.observers.size() + (above ? 1 : 0) || n.k == node::BOOL,
        "an expression has " << ex::callback_count(*n.e) << " observers instead of " << n.observers.size() + above);
    if(n.l)
      observed(*n.l, here, counts, pulses);
    if(n.r)
      observed(*n.r, here, counts, pulses);
  }
  void check()
  {
    std::vector<int> counts(params.size()), pulses;
    for(auto& r : roots)
      observed(*r.n, false, counts, pulses);
    for(std::size_t i = 0; i < params.size(); i++)
      VF_CHECK(
          (int)params[i]->callback_count() == counts[i],
          "the parameter " << i << " has " << params[i]->callback_count() << " observers instead of " << counts[i]);
    for(auto n : nodes())
      VF_CHECK(ex::evaluate(*n->e) == eval(*n), show(*n) << " is " << ex::evaluate(*n->e));
  }
  static std::string show(const operand& o)
  {
    std::ostringstream s;
    if(o.param < 0)
      s << gv::show(o.val);
    else
      s << "p" << o.param;
    for(auto i : o.index)
      s << '[' << i << ']';
    if(o.unit)
      s << '{' << get_pretty_unit_text(o.unit) << '}';
    return s.str();
  }
  static std::string show(const node& n)
  {
    static const char* const cmp[] = {"==", "!=", ">", "<", ">=", "<="};
    static const char* const bin[] = {"and", "or", "xor"};
    switch(n.k)
    {
      case node::ATOM: return show(n.a) + cmp[(int)n.cmp] + show(n.b);
      case node::BOOL: return n.val ? "true" : "false";
      case node::COMP: return "(" + show(*n.l) + " " + bin[(int)n.op] + " " + show(*n.r) + ")";
      case node::NOT: return "!" + show(*n.l);
      case node::PULSE: return "pulse(p" + std::to_string(n.a.param) + ")";
      default: return "custom";
    }
  }
  void observe(node& n)
  {
    n.observers.emplace_back();
    auto& o = n.observers.back();
    auto* self = this;
    auto* np = &n;
    auto* op = &o;
    o.it = ex::add_callback(*n.e, [self, np, op](bool b) {
      op->called++;
      op->last = b;
      if(!self->updating)
        VF_CHECK(b == ex::evaluate(*np->e), "an observer of " << show(*np) << " is told " << b);
    });
  }
  void forget(node& n, std::size_t k)
  {
    auto it = std::next(n.observers.begin(), k);
    ex::remove_callback(*n.e, it->it);
    n.observers.erase(it);
  }
  void reset()
  {
    for(auto n : nodes())
      for(auto& o : n->observers)
        o.called = 0;
  }
  void pulsed(int p)
  {
    for(auto n : nodes())
      if(n->k == node::PULSE && n->a.param == p)
        n->val = true;
  }
  // the structure is compared; user-defined ones are never equal
  bool same(const operand& a, const operand& b)
  {
    return a.param == b.param && a.index == b.index && a.unit == b.unit && (a.param >= 0 || a.val == b.val);
  }
  bool same(const node& a, const node& b)
  {
    if(a.k != b.k)
      return false;
    switch(a.k)
    {
      case node::ATOM: return a.cmp == b.cmp && same(a.a, b.a) && same(a.b, b.b);
      case node::BOOL: return a.val == b.val;
      case node::COMP: return a.op == b.op && same(*a.l, *b.l) && same(*a.r, *b.r);
      case node::NOT: return same(*a.l, *b.l);
      case node::PULSE: return a.a.param == b.a.param;
      default: return false;
    }
  }
};
}

VF_PROP(histories, 30000, 400000)
{
  world w{c};
  bool told = false;
  for(std::size_t step = 0; c.more(step, 25, 12); step++)
  {
    auto all = w.nodes();
    switch(all.empty() ? 0 : c.weighted({1, 5, 3, 2, 2, 1, 1}))
    {
      case 0:
        if(w.roots.size() < 3)
        {
          world::root r;
          r.n = std::make_unique<node>();
          r.e = w.build(*r.n, 0);
          if(r.n->k == node::COMP || r.n->k == node::NOT)
            w.combined = true;
          VF_NOTE("expression " << world::show(*r.n));
          w.roots.push_back(std::move(r));
        }
        break;
      case 1: {
        int p = (int)c.draw(w.params.size());
        auto v = w.small(p);
        VF_NOTE("p" << p << " = " << gv::show(v));
        w.reset();
        if(c.coin())
          w.params[p]->push_value(v);
        else
          w.params[p]->set_value(v);
        w.pulsed(p);
        for(auto n : all)
          for(auto& o : n->observers)
          {
            int k = w.leaves(*n, p, true);
            told |= k > 0;
            VF_CHECK(o.called == k, "an observer of " << world::show(*n) << " is called " << o.called << " times instead of " << k);
            VF_CHECK(!k || o.last == w.eval(*n), "an observer of " << world::show(*n) << " was last told " << o.last);
          }
        break;
      }
      case 2: {
        auto n = all[c.draw(all.size())];
        VF_NOTE("observe " << world::show(*n));
        w.observe(*n);
        break;
      }
      case 3: {
        auto n = all[c.draw(all.size())];
        if(!n->observers.empty())
        {
          VF_NOTE("one observer less of " << world::show(*n));
          w.forget(*n, c.draw(n->observers.size()));
        }
        break;
      }
      case 4: {
        // what is pulled is new
        auto n = all[c.draw(all.size())];
        VF_NOTE("update " << world::show(*n));
        w.proto->pulls.clear();
        w.proto->remote.clear();
        for(std::size_t p = 0; p < w.params.size(); p++)
          if(c.chance(1, 3))
            w.proto->remote[w.params[p]] = w.small((int)p);
        std::map<custom_state*, int> before;
        std::vector<node*> sub;
        world::all(*n, sub);
        for(auto s : sub)
          if(s->cust)
            before[s->cust.get()] = s->cust->updates;
        w.updating = true;
        ex::update(*n->e);
        w.updating = false;
        std::vector<int> occ(w.params.size());
        for(auto s : sub)
        {
          if(s->k == node::ATOM)
            for(auto o : {&s->a, &s->b})
              if(o->param >= 0)
                occ[o->param]++;
          if(s->cust)
            VF_CHECK(s->cust->updates == before[s->cust.get()] + 1, "a user-defined expression is updated " << s->cust->updates - before[s->cust.get()] << " times");
        }
        for(std::size_t p = 0; p < w.params.size(); p++)
        {
          VF_CHECK(
              (occ[p] > 0) == (w.proto->pulls[w.params[p]] > 0),
              "the parameter " << p << " is pulled " << w.proto->pulls[w.params[p]] << " times by the update of " << world::show(*n));
          if(auto it = w.proto->remote.find(w.params[p]); occ[p] && it != w.proto->remote.end())
          {
            VF_CHECK(gv::show(w.params[p]->value()) == gv::show(it->second), "the parameter " << p << " was not pulled");
          }
        }
        // a pulse which is updated after the last message is off; when messages come during the update it depends on
        // the order
        for(auto m : w.nodes())
          if(m->k == node::PULSE)
          {
            bool hit = occ[m->a.param] && w.proto->remote.count(w.params[m->a.param]);
            bool mine = std::find(sub.begin(), sub.end(), m) != sub.end();
            if(mine && !hit)
              m->val = false;
            else if(hit && !mine)
              m->val = true;
            else if(hit)
              m->val = ex::evaluate(*m->e);
          }
        break;
      }
      case 5: {
        for(auto n : all)
          if(n->cust && c.coin())
          {
            n->cust->result = c.coin();
            VF_NOTE("a user-defined expression is " << n->cust->result);
            w.reset();
            const bool heard = n->cust->listening;
            if(heard)
              n->cust->self->send(n->cust->result);
            for(auto m : all)
            {
              std::vector<node*> sub;
              world::all(*m, sub);
              int k = heard && std::find(sub.begin(), sub.end(), n) != sub.end();
              for(auto& o : m->observers)
              {
                VF_CHECK(o.called == k, "an observer of " << world::show(*m) << " is called " << o.called << " times instead of " << k);
                VF_CHECK(!k || o.last == w.eval(*m), "an observer of " << world::show(*m) << " was last told " << o.last);
              }
            }
          }
        break;
      }
      default: {
        auto k = c.draw(w.roots.size());
        VF_NOTE("destroyed: " << world::show(*w.roots[k].n));
        w.roots[k].e.reset();
        w.roots.erase(w.roots.begin() + k);
      }
    }
    w.check();
  }
  c.nontrivial(w.combined && told);
}

VF_PROP(equality, 20000, 200000)
{
  world w{c};
  world::root a, b;
  a.n = std::make_unique<node>();
  a.e = w.build(*a.n, 0);
  b.n = std::make_unique<node>();
  b.e = c.chance(1, 4) ? w.build(*b.n, 0) : w.clone(*a.n, *b.n, (int)c.draw(3));
  const bool same = w.same(*a.n, *b.n);
  c.label(same, "equal");
  VF_NOTE(world::show(*a.n) << "  " << world::show(*b.n));
  VF_CHECK((*a.e == *b.e) == same, "equal is " << (*a.e == *b.e));
  VF_CHECK((*a.e != *b.e) == !same, "different is " << (*a.e != *b.e));
  c.nontrivial(a.n->k == b.n->k);
}
