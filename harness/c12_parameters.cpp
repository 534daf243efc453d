// C12: parameters: the value, what is sent, who is told, and the attributes, whatever the history.
#include "gen_value.hpp"

#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/dataspace/value_with_unit.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/network/domain/domain_conversion.hpp>
#include <ossia/network/generic/alias_node.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/local/local.hpp>
#include <ossia/network/value/destination.hpp>
#include <ossia/network/value/value_conversion.hpp>

#include <atomic>
#include <thread>

using namespace ossia;
using namespace ossia::net;
using gv::MV;
const char* const vf::rule
    = "histories of writes, pushes, pulls, attribute changes and subscriptions on parameters of a device whose "
      "protocols record what they are asked; non-trivial: at least two writes, one of them observed or sent";

// a protocol which records what it is asked
struct recorder : protocol_base
{
  std::vector<std::string>* log;
  std::string id;
  std::map<const parameter_base*, ossia::value> remote;
  bool multiplexable;
  bool ok{true}; // what its pushes return
  recorder(std::vector<std::string>& l, std::string i, bool m = true)
      : protocol_base{m ? flags{SupportsMultiplex} : flags{}}, log{&l}, id{std::move(i)}, multiplexable{m}
  {
  }
  ~recorder() { log->push_back(id + " gone"); }
  static std::string at(const parameter_base& p) { return osc_parameter_string(p); }
  bool pull(parameter_base& p) override
  {
    log->push_back(id + " pull " + at(p));
    if (auto it = remote.find(&p); it != remote.end())
      p.set_value(it->second);
    return true;
  }
  void request(parameter_base& p) override { log->push_back(id + " request " + at(p)); }
  // like the OSC protocols, honours the filters of the parameter
  bool push(const parameter_base& p, const ossia::value& v) override
  {
    if (!p.filter_value(v))
      log->push_back(id + " push " + at(p) + " " + gv::show(v));
    else
      log->push_back(id + " filtered " + at(p));
    return ok;
  }
  bool push_raw(const full_parameter_data& d) override
  {
    log->push_back(id + " raw " + d.address + " " + gv::show(d.value()));
    return true;
  }
  bool observe(parameter_base& p, bool b) override
  {
    log->push_back(id + (b ? " observe " : " unobserve ") + at(p));
    return true;
  }
  bool observe_quietly(parameter_base& p, bool b) override
  {
    log->push_back(id + (b ? " quietly observe " : " quietly unobserve ") + at(p));
    return true;
  }
  bool echo_incoming_message(const message_origin_identifier&, const parameter_base& p, const ossia::value& v) override
  {
    log->push_back(id + " echo " + at(p) + " " + gv::show(v));
    return true;
  }
  bool update(node_base&) override { return false; }
};

static std::string join(const std::vector<std::string>& v)
{
  std::string r;
  for (auto& s : v)
    r += s + " | ";
  return r;
}

static const val_type TYPES[] = {val_type::FLOAT, val_type::INT,    val_type::VEC2F,  val_type::VEC3F, val_type::VEC4F,
                                 val_type::IMPULSE, val_type::BOOL, val_type::STRING, val_type::LIST,  val_type::CHAR};

static ossia::domain gen_domain(vf::Case& c)
{
  switch (c.draw(5))
  {
    case 0:
      return {};
    case 1:
      return make_domain((int)c.range(-20, 0), (int)c.range(0, 20));
    case 2:
      return make_domain((float)c.range(-20, 0), (float)c.range(0, 20));
    case 3:
      return make_domain(std::array<float, 3>{(float)c.range(-5, 0), 0, 0}, std::array<float, 3>{1, 1, (float)c.range(1, 5)});
    default:
    {
      std::vector<ossia::value> v;
      for (int i = 0, n = (int)c.range(1, 4); i < n; i++)
        v.push_back((int)c.range(-9, 9));
      return make_domain(v);
    }
  }
}
static unit_t gen_unit(vf::Case& c)
{
  switch (c.draw(7))
  {
    case 0:
      return {};
    case 1:
      return ossia::meter_u{};
    case 2:
      return ossia::centimeter_u{};
    case 3:
      return ossia::rgb_u{};
    case 4:
      return ossia::cartesian_3d_u{};
    case 5:
      return ossia::degree_u{};
    default:
      return ossia::linear_u{};
  }
}

struct PM // model of a parameter
{
  node_base* node{};
  parameter_base* real{};
  std::string addr;
  val_type type{};
  ossia::value val, prev;
  bool prev_known{};
  access_mode access{access_mode::BI};
  bounding_mode bounding{bounding_mode::FREE};
  repetition_filter rep{repetition_filter::OFF};
  unit_t unit;
  ossia::domain dom;
  bool disabled{}, muted{}, critical{};
  std::vector<std::pair<int, parameter_base::callback_index>> cbs;
  std::vector<ossia::value> want_seen; // by each of its observers
};

static bool same(const ossia::value& a, const ossia::value& b)
{
  return gv::matches(a, gv::from_value(b));
}

struct modified
{
  std::vector<std::pair<const node_base*, std::string>> v;
  void on(node_base& n, const std::string& s) { v.emplace_back(&n, s); }
};

VF_PROP(histories, 25000, 300000)
{
  std::vector<std::string> log;
  const bool mux = c.coin();
  std::vector<std::pair<std::string, recorder*>> protos; // alive
  int next_proto = 0;
  std::unique_ptr<protocol_base> top;
  multiplex_protocol* mp{};
  auto mk = [&](bool can) {
    auto r = std::make_unique<recorder>(log, "P" + std::to_string(next_proto++), can);
    r->ok = c.chance(2, 3);
    return r;
  };
  if (mux)
  {
    auto m = std::make_unique<multiplex_protocol>();
    mp = m.get();
    for (int i = 0, n = (int)c.range(0, 2); i < n; i++)
    {
      auto r = mk(true);
      protos.emplace_back(r->id, r.get());
      m->expose_to(std::move(r));
    }
    top = std::move(m);
  }
  else
  {
    auto r = mk(true);
    protos.emplace_back(r->id, r.get());
    top = std::move(r);
  }
  generic_device dev{std::move(top), "dev"};
  modified mods;
  dev.on_attribute_modified.connect<&modified::on>(mods);
  VF_CHECK(log.empty(), "the protocols were asked something by the creation of the device: " << join(log));
  std::vector<PM> ps(c.range(1, 3));
  for (std::size_t i = 0; i < ps.size(); i++)
  {
    auto& p = ps[i];
    p.type = TYPES[c.draw(std::size(TYPES))];
    p.addr = (i == 1 ? "/p0/p" : "/p") + std::to_string(i);
    p.node = &create_node(dev, p.addr);
    if (c.chance(1, 4))
    {
      parameter_data d{"x"};
      d.type = p.type;
      if (c.coin())
        d.access = p.access = c.pick({access_mode::BI, access_mode::GET, access_mode::SET});
      if (c.coin())
        d.bounding = p.bounding = c.pick({bounding_mode::FREE, bounding_mode::CLIP, bounding_mode::FOLD});
      if (c.coin())
        d.rep_filter = p.rep = repetition_filter::ON;
      p.node->set_parameter(std::make_unique<generic_parameter>(d, *p.node));
      p.real = p.node->get_parameter();
    }
    else
      p.real = p.node->create_parameter(p.type);
    VF_CHECK(p.real && p.real == p.node->get_parameter(), "no parameter");
    p.val = init_value(p.type);
    log.clear();
  }
  mods.v.clear();
  std::map<int, std::vector<ossia::value>> seen; // by observer
  int next_cb = 0, writes = 0, effects = 0;
  std::string ctx;

  auto check = [&](std::vector<std::string> want, std::vector<std::pair<const node_base*, std::string>> wm, bool mods_optional = false) {
    VF_CHECK(log == want, "the protocols were asked: " << join(log) << "; expected: " << join(want) << " after " << ctx);
    log.clear();
    if (!(mods_optional && mods.v.empty()))
      VF_CHECK(mods.v == wm, mods.v.size() << " attribute notifications" << (mods.v.empty() ? "" : " (" + mods.v[0].second + ")") << ", expected "
                                           << wm.size() << (wm.empty() ? "" : " (" + wm[0].second + ")") << " after " << ctx);
    mods.v.clear();
    for (auto& p : ps)
    {
      for (auto& [k, it] : p.cbs)
      {
        auto& s = seen[k];
        VF_CHECK(s.size() == p.want_seen.size(), "observer " << k << " of " << p.addr << " was called " << s.size() << " times, expected " << p.want_seen.size() << " after " << ctx);
        for (std::size_t i = 0; i < s.size(); i++)
          VF_CHECK(same(s[i], p.want_seen[i]), "observer of " << p.addr << " saw " << gv::show(s[i]) << ", expected " << gv::show(p.want_seen[i]) << " after " << ctx);
        s.clear();
      }
      p.want_seen.clear();
      auto v = p.real->value();
      VF_CHECK(same(v, p.val), p.addr << " holds " << gv::show(v) << ", expected " << gv::show(p.val) << " after " << ctx);
      VF_CHECK(p.real->get_value_type() == p.type, p.addr << ": value type after " << ctx);
      VF_CHECK(p.real->get_access() == p.access, p.addr << ": access mode after " << ctx);
      VF_CHECK(p.real->get_bounding() == p.bounding, p.addr << ": bounding mode after " << ctx);
      VF_CHECK(p.real->get_repetition_filter() == p.rep, p.addr << ": repetition filter after " << ctx);
      VF_CHECK(p.real->get_unit() == p.unit, p.addr << ": unit after " << ctx);
      VF_CHECK(p.real->get_domain() == p.dom, p.addr << ": domain after " << ctx);
      VF_CHECK(p.real->get_disabled() == p.disabled && p.real->get_muted() == p.muted && p.real->get_critical() == p.critical, p.addr << ": flags after " << ctx);
      // the accessors on nodes say the same
      VF_CHECK(same(clone_value(*p.node), p.val) && get_value_type(*p.node) == p.type && get_access_mode(*p.node) == p.access
                   && get_bounding_mode(*p.node) == p.bounding && get_repetition_filter(*p.node) == p.rep && ossia::net::get_unit(*p.node) == p.unit
                   && ossia::net::get_domain(*p.node) == p.dom && get_disabled(*p.node) == p.disabled && get_muted(*p.node) == p.muted && get_critical(*p.node) == p.critical,
               p.addr << ": attributes seen from the node after " << ctx);
    }
    for (auto& [k, s] : seen)
      VF_CHECK(s.empty(), "a removed observer was called after " << ctx);
  };
  auto to_all = [&](const std::string& what) {
    std::vector<std::string> r;
    for (auto& [id, p] : protos)
      r.push_back(id + " " + what);
    return r;
  };

  for (int step = 0; c.more(step, 40, 18); step++)
  {
    auto& p = ps[c.draw(ps.size())];
    gv::Opts o;
    // the type of the parameter, mostly
    MV m;
    for (int k = 0; k < 6; k++)
    {
      m = gv::gen(c, o);
      if (gv::vt(m.t) == p.type)
        break;
    }
    if (c.chance(1, 3))
      m = gv::from_value(c.coin() ? p.val : p.prev.valid() ? p.prev : p.val);
    ossia::value in = gv::to_value(m);
    const bool filtered_flags = p.disabled || p.muted;
    auto stored = [&] {
      p.prev = p.val;
      p.prev_known = true;
      p.val = in.get_type() == p.val.get_type() ? in : ossia::convert(in, p.val);
      writes++;
    };
    auto push_effect = [&]() -> std::vector<std::string> {
      effects += (int)protos.size();
      if (filtered_flags || (p.rep == repetition_filter::ON && p.val == p.prev))
        return to_all("filtered " + p.addr);
      return to_all("push " + p.addr + " " + gv::show(p.val));
    };
    switch (c.weighted({6, 3, 2, 2, 1, 2, 2, 2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2}))
    {
      case 0: // push
      {
        ctx = "push " + gv::show(in) + " to " + p.addr;
        if (c.coin())
          p.real->push_value(in);
        else
          p.real->push_value(ossia::value{in});
        stored();
        p.want_seen.push_back(p.val);
        effects += (int)p.cbs.size();
        check(push_effect(), {});
        break;
      }
      case 1: // set
      {
        ctx = "set " + gv::show(in) + " in " + p.addr;
        auto r = c.coin() ? p.real->set_value(in) : p.real->set_value(ossia::value{in});
        stored();
        p.want_seen.push_back(p.val);
        effects += (int)p.cbs.size();
        VF_CHECK(same(r, p.val), "set_value returns " << gv::show(r) << " after " << ctx);
        check({}, {});
        break;
      }
      case 2: // quietly
      {
        ctx = "set quietly " + gv::show(in) + " in " + p.addr;
        auto r = c.coin() ? p.real->set_value_quiet(in) : p.real->set_value_quiet(ossia::value{in});
        stored();
        VF_CHECK(same(r, p.val), "set_value_quiet returns " << gv::show(r) << " after " << ctx);
        check({}, {});
        break;
      }
      case 3: // push quietly
      {
        ctx = "push quietly " + gv::show(in) + " to " + p.addr;
        if (c.coin())
          p.real->push_value_quiet(in);
        else
          p.real->push_value_quiet(ossia::value{in});
        stored();
        check(push_effect(), {});
        break;
      }
      case 4: // push the current value
      {
        if (p.rep == repetition_filter::ON && !p.prev_known)
          break;
        ctx = "push of " + p.addr;
        p.real->push_value();
        check(push_effect(), {});
        break;
      }
      case 5: // subscribe
      {
        ctx = "subscription to " + p.addr;
        const int k = next_cb++;
        std::vector<std::string> want;
        if (p.cbs.empty())
          want = to_all((mux ? "quietly observe " : "observe ") + p.addr);
        seen[k];
        p.cbs.emplace_back(k, p.real->add_callback([&seen, k](const ossia::value& v) { seen[k].push_back(v); }));
        check(want, {});
        break;
      }
      case 6: // unsubscribe
      {
        if (p.cbs.empty())
          break;
        ctx = "end of a subscription to " + p.addr;
        const std::size_t k = c.draw(p.cbs.size());
        p.real->remove_callback(p.cbs[k].second);
        p.cbs.erase(p.cbs.begin() + k);
        std::vector<std::string> want;
        if (p.cbs.empty())
          want = to_all((mux ? "quietly unobserve " : "unobserve ") + p.addr);
        check(want, {});
        break;
      }
      case 7: // a value from the network
      {
        ctx = "pull of " + p.addr;
        if (mux)
        {
          p.real->pull_value();
          check({}, {});
          break;
        }
        auto rec = protos[0].second;
        const bool known = c.coin();
        if (known)
          rec->remote[p.real] = in;
        else
          rec->remote.erase(p.real);
        const bool fetch = c.coin();
        ossia::value got;
        if (fetch)
          got = p.real->fetch_value();
        else
          p.real->pull_value();
        if (known)
        {
          stored();
          p.want_seen.push_back(p.val);
        }
        if (fetch)
          VF_CHECK(same(got, p.val), "fetch_value gives " << gv::show(got) << " after " << ctx);
        check(to_all("pull " + p.addr), {});
        break;
      }
      case 8: // reads
      {
        ctx = "reads of " + p.addr;
        destination_index idx;
        for (int i = 0, n = (int)c.range(0, 2); i < n; i++)
          idx.push_back((int)c.range(0, 3));
        auto want = get_value_at_index(p.val, idx);
        VF_CHECK(same(p.real->value(idx), want), "sub-value " << gv::show(p.real->value(idx)) << ", expected " << gv::show(want) << " of " << p.addr);
        auto l = p.real->value(std::vector<destination_index>{idx, {}, {1}});
        VF_CHECK(l.size() == 3 && same(l[0], want) && same(l[1], p.val) && same(l[2], get_value_at_index(p.val, destination_index{1})), "sub-values of " << p.addr);
        destination d{*p.real, idx};
        auto w = ossia::net::get_value(d);
        if (!p.unit)
          VF_CHECK(same(ossia::to_value(w), want), "value of a destination: " << gv::show(ossia::to_value(w)) << ", expected " << gv::show(want));
        check({}, {});
        break;
      }
      case 9:
      {
        p.type = TYPES[c.draw(std::size(TYPES))];
        ctx = "change of the type of " + p.addr;
        if (c.coin())
          p.real->set_value_type(p.type);
        else
          p.node->set(value_type_attribute{}, p.type);
        p.val = init_value(p.type);
        p.prev_known = false;
        if (p.dom)
          convert_compatible_domain(p.dom, p.type);
        check({}, {{p.node, "type"}});
        break;
      }
      case 10:
      {
        auto a = c.pick({access_mode::BI, access_mode::GET, access_mode::SET});
        ctx = "change of the access of " + p.addr;
        const bool ch = a != p.access;
        p.access = a;
        if (c.coin())
          p.real->set_access(a);
        else
          p.node->set(access_mode_attribute{}, a);
        check({}, ch ? decltype(mods.v){{p.node, "access"}} : decltype(mods.v){});
        break;
      }
      case 11:
      {
        auto d = gen_domain(c);
        ctx = "change of the domain of " + p.addr;
        auto e = d;
        convert_compatible_domain(e, p.type);
        const bool ch = p.dom != e;
        const bool given = p.dom != d;
        if (c.coin())
          p.real->set_domain(d);
        else
          p.node->set(domain_attribute{}, d);
        if (given)
          p.dom = e;
        check({}, given ? decltype(mods.v){{p.node, "domain"}} : decltype(mods.v){}, given && !ch);
        break;
      }
      case 12:
      {
        auto b = c.pick({bounding_mode::FREE, bounding_mode::CLIP, bounding_mode::WRAP, bounding_mode::FOLD, bounding_mode::LOW, bounding_mode::HIGH});
        ctx = "change of the bounding of " + p.addr;
        const bool ch = b != p.bounding && p.type != val_type::BOOL;
        if (c.coin())
          p.real->set_bounding(b);
        else
          p.node->set(bounding_mode_attribute{}, b);
        if (ch)
          p.bounding = b;
        check({}, ch ? decltype(mods.v){{p.node, "bounding"}} : decltype(mods.v){});
        break;
      }
      case 13:
      {
        auto r = c.coin() ? repetition_filter::ON : repetition_filter::OFF;
        ctx = "change of the repetition filter of " + p.addr;
        const bool ch = r != p.rep;
        p.rep = r;
        if (c.coin())
          p.real->set_repetition_filter(r);
        else
          p.node->set(repetition_filter_attribute{}, r);
        check({}, ch ? decltype(mods.v){{p.node, "repetition_filter"}} : decltype(mods.v){});
        break;
      }
      case 14:
      {
        auto u = gen_unit(c);
        ctx = "change of the unit of " + p.addr;
        p.unit = u;
        const bool direct = c.coin();
        if (direct)
          p.real->set_unit(u);
        else
          p.node->set(unit_attribute{}, u);
        if (u)
        {
          auto t = matching_type(u);
          if (t != val_type::IMPULSE)
          {
            p.type = t;
            p.val = ossia::convert(p.val, t);
            if (p.dom)
              convert_compatible_domain(p.dom, t);
          }
        }
        check({}, {{p.node, "unit"}});
        break;
      }
      case 15:
      case 16:
      case 17:
      {
        const bool b = c.coin();
        const int which = (int)c.draw(3);
        bool& f = which == 0 ? p.disabled : which == 1 ? p.muted : p.critical;
        const char* const name[] = {"disabled", "muted", "critical"};
        ctx = std::string("change of ") + name[which] + " of " + p.addr;
        const bool ch = f != b;
        f = b;
        const bool direct = c.coin();
        switch (which)
        {
          case 0:
            direct ? (void)p.real->set_disabled(b) : p.node->set(disabled_attribute{}, b);
            break;
          case 1:
            direct ? (void)p.real->set_muted(b) : p.node->set(muted_attribute{}, b);
            break;
          default:
            direct ? (void)p.real->set_critical(b) : p.node->set(critical_attribute{}, b);
        }
        check({}, ch ? decltype(mods.v){{p.node, name[which]}} : decltype(mods.v){});
        break;
      }
      case 18: // a value of another parameter
      {
        auto& q = ps[c.draw(ps.size())];
        if (&q == &p)
          break;
        ctx = "copy of " + q.addr + " in " + p.addr;
        auto& g = dynamic_cast<generic_parameter&>(*p.real);
        if (!mux)
          protos[0].second->remote.clear();
        bool thrown = false;
        try
        {
          g.set_value_quiet(destination{*q.real});
        }
        catch (const std::exception&)
        {
          thrown = true;
        }
        VF_CHECK(thrown == (p.type != q.type), (thrown ? "refused " : "accepted ") << ctx);
        std::vector<std::string> want;
        if (!thrown)
        {
          p.prev = p.val;
          p.prev_known = true;
          p.val = q.val;
          if (!mux)
            want = to_all("pull " + q.addr);
        }
        check(want, {});
        break;
      }
      default: // protocols come and go
      {
        if (!mux)
          break;
        if (protos.size() < 3 && c.coin())
        {
          const bool can = c.chance(3, 4);
          ctx = can ? "a protocol added" : "a protocol which cannot be multiplexed added";
          auto r = mk(can);
          const std::string id = r->id;
          auto raw = r.get();
          mp->expose_to(std::move(r));
          std::vector<std::string> want;
          if (can)
          {
            protos.emplace_back(id, raw);
            // those which are observed: depth first
            for (std::size_t i = 0; i < ps.size(); i++)
              if (!ps[i].cbs.empty())
                want.push_back(id + " quietly observe " + ps[i].addr);
          }
          else
            want.push_back(id + " gone");
          check(want, {});
        }
        else if (!protos.empty())
        {
          ctx = "a protocol removed";
          const std::size_t k = c.draw(protos.size());
          const std::string id = protos[k].first;
          mp->stop_expose_to(*protos[k].second);
          protos.erase(protos.begin() + k);
          check({id + " gone"}, {});
        }
        VF_CHECK(mp->get_protocols().size() == protos.size(), mp->get_protocols().size() << " protocols after " << ctx);
      }
    }
  }
  c.nontrivial(writes >= 2 && effects >= 1);
  // what comes from a device is given to the other protocols when asked for
  if (c.coin())
  {
    auto& p = ps[c.draw(ps.size())];
    dev.set_echo(c.coin());
    recorder other{log, "other"};
    message_origin_identifier id{other, 0};
    const MV m = gv::gen(c);
    auto in = gv::to_value(m);
    p.prev = p.val;
    p.val = in.get_type() == p.val.get_type() ? in : ossia::convert(in, p.val);
    ctx = "incoming " + gv::show(in) + " for " + p.addr;
    const bool quiet = c.coin();
    std::vector<std::string> want;
    if (quiet)
      dev.apply_incoming_message_quiet(id, *p.real, ossia::value{in});
    else
    {
      dev.apply_incoming_message(id, *p.real, ossia::value{in});
      p.want_seen.push_back(p.val);
    }
    if (dev.has_echo())
      for (auto& [k, r] : protos)
        want.push_back(k + " echo " + p.addr + " " + gv::show(p.val));
    // the value echoed may be the one received or the one stored
    if (dev.has_echo() && log != want && same(p.val, p.val))
    {
      want.clear();
      for (auto& [k, r] : protos)
        want.push_back(k + " echo " + p.addr + " " + gv::show(in));
    }
    check(want, {});
    log.clear();
  }
}

// descriptions of parameters answer like the parameters
VF_PROP(descriptions, 20000, 200000)
{
  generic_device dev{"dev"};
  auto& n = create_node(dev, "/a");
  auto p = n.create_parameter(TYPES[c.draw(std::size(TYPES))]);
  full_parameter_data d{"/a"};
  d.type = p->get_value_type();
  d.set_value(p->value());
  auto flag = [&] { return c.coin(); };
  d.disabled = flag();
  d.muted = flag();
  d.critical = flag();
  d.rep_filter = flag() ? repetition_filter::ON : repetition_filter::OFF;
  d.access = c.pick({access_mode::BI, access_mode::GET, access_mode::SET});
  d.bounding = c.pick({bounding_mode::FREE, bounding_mode::CLIP});
  d.unit = gen_unit(c);
  p->set_disabled(d.disabled);
  p->set_muted(d.muted);
  p->set_critical(d.critical);
  p->set_repetition_filter(d.rep_filter);
  p->set_access(d.access);
  VF_CHECK(d.get_disabled() == d.disabled && d.get_muted() == d.muted && d.get_critical() == d.critical, "flags of a description");
  VF_CHECK(d.get_repetition_filter() == d.rep_filter && d.get_access() == d.access && d.get_bounding() == d.bounding && d.get_unit() == d.unit
               && d.get_value_type() == d.type,
           "attributes of a description");
  c.nontrivial();
  for (int i = 0, k = (int)c.range(1, 6); i < k; i++)
  {
    MV m;
    for (int t = 0; t < 20; t++)
    {
      m = gv::gen(c);
      if (gv::vt(m.t) == d.type)
        break;
    }
    auto v = gv::vt(m.t) == d.type && c.chance(2, 3) ? gv::to_value(m) : p->value();
    if (c.coin())
      d.set_value(v);
    else
      d.set_value(ossia::value{v});
    p->set_value(v);
    VF_CHECK(same(d.value(), p->value()), "value of the description: " << gv::show(d.value()) << ", of the parameter " << gv::show(p->value()));
    VF_CHECK(d.filter_value(v) == p->filter_value(v), "filtering " << gv::show(v) << ": " << d.filter_value(v) << " by the description, " << p->filter_value(v) << " by the parameter");
    if (!d.disabled && !d.muted && d.rep_filter == repetition_filter::OFF)
      VF_CHECK(!d.filter_value(v), "filtered without a reason");
    if (d.disabled || d.muted)
      VF_CHECK(d.filter_value(v), "a disabled or muted parameter lets values through");
  }
}

// an alias is the parameter of its origin; an alias of a path writes to all that match
VF_PROP(aliases, 8000, 80000)
{
  auto dev = std::make_unique<generic_device>("dev");
  auto& root = dev->get_root_node();
  std::vector<node_base*> targets;
  std::map<node_base*, ossia::value> val;
  const int K = (int)c.range(1, 4);
  for (int i = 0; i < K; i++)
  {
    auto& n = create_node(*dev, "/t/n." + std::to_string(i));
    if (c.chance(4, 5))
    {
      n.create_parameter(val_type::INT);
      val[&n] = ossia::value{0};
    }
    targets.push_back(&n);
  }
  auto a = std::make_unique<alias_node>("alias", *dev, root);
  auto al = static_cast<alias_node*>(root.add_child(std::move(a)));
  auto b = std::make_unique<alias_path>("path", *dev, root);
  auto ap = static_cast<alias_path*>(root.add_child(std::move(b)));
  VF_CHECK(al && ap, "aliases could not be added");
  node_base& apn = *ap;
  VF_CHECK(apn.get_parameter() != nullptr, "an alias of a path has no parameter");
  node_base* origin{};
  std::string pattern;
  std::vector<node_base*> matched;
  auto rematch = [&] {
    matched.clear();
    for (auto t : targets)
      if (pattern == "t/n.*" || pattern == "t/" + t->get_name())
        matched.push_back(t);
  };
  for (int step = 0; c.more(step, 20, 10); step++)
  {
    switch (c.draw(6))
    {
      case 0:
        origin = targets.empty() || c.chance(1, 5) ? nullptr : targets[c.draw(targets.size())];
        al->set_origin(origin);
        break;
      case 1:
      {
        if (targets.empty())
          break;
        pattern = c.coin() ? "t/n.*" : "t/" + targets[c.draw(targets.size())]->get_name();
        auto p = traversal::make_path("//" + pattern);
        if (!p)
          p = traversal::make_path("/" + pattern);
        VF_CHECK(!!p, "no path for " << pattern);
        ap->set_roots({&root});
        ap->set_path(*p);
        break;
      }
      case 2: // write through the alias
      {
        const int v = (int)c.range(-9, 9);
        if (auto p = al->get_parameter())
        {
          p->push_value(v);
          val[origin] = v;
          c.nontrivial();
        }
        break;
      }
      case 3: // write through the path
      {
        if (pattern.empty())
          break;
        const int v = (int)c.range(-9, 9);
        auto p = apn.get_parameter();
        switch (c.draw(5))
        {
          case 0:
            p->push_value(ossia::value{v});
            break;
          case 1:
          {
            const ossia::value k{v};
            p->push_value(k);
            break;
          }
          case 2:
            p->set_value(ossia::value{v});
            break;
          case 3:
            p->set_value_quiet(ossia::value{v});
            break;
          default:
            p->push_value_quiet(ossia::value{v});
        }
        rematch();
        for (auto m : matched)
          if (val.count(m))
            val[m] = v;
        c.nontrivial();
        break;
      }
      case 4: // a target goes away
      {
        if (targets.empty())
          break;
        const std::size_t k = c.draw(targets.size());
        auto t = targets[k];
        targets.erase(targets.begin() + k);
        if (t == origin)
          origin = nullptr;
        val.erase(t);
        VF_CHECK(t->get_parent()->remove_child(*t), "could not remove a node");
        break;
      }
      default: // parameters through the alias
        if (origin && c.coin())
        {
          if (val.count(origin))
          {
            VF_CHECK(al->remove_parameter(), "could not remove the parameter through its alias");
            val.erase(origin);
          }
          else
          {
            VF_CHECK(al->create_parameter(val_type::INT) == origin->get_parameter(), "an alias creates another parameter");
            val[origin] = ossia::value{0};
          }
        }
    }
    VF_CHECK(al->get_origin() == origin, "the alias has another origin");
    VF_CHECK(al->get_parameter() == (origin ? origin->get_parameter() : nullptr), "the alias has another parameter than its origin");
    for (auto t : targets)
    {
      auto p = t->get_parameter();
      VF_CHECK(!!p == !!val.count(t), "parameter of " << t->get_name());
      if (p)
        VF_CHECK(same(p->value(), val[t]), t->get_name() << " holds " << gv::show(p->value()) << ", expected " << gv::show(val[t]));
    }
  }
  if (c.coin())
  {
    VF_CHECK(root.remove_child(*al), "could not remove the alias");
    for (auto t : targets)
      root.find_child("t")->remove_child(*t);
  }
}

// values are seen whole, and observers are told of each write, whatever the threads
VF_PROP_SCHED(threads, 300, 3000, 20)
{
  generic_device dev{"dev"};
  const bool text = c.coin();
  auto p = create_node(dev, "/a").create_parameter(text ? val_type::STRING : val_type::LIST);
  const int W = (int)c.range(1, 3), R = (int)c.range(1, 2), K = (int)c.range(20, 200), S = (int)c.range(8, 40);
  auto make = [&](int k) {
    if (text)
      return ossia::value{std::string(S, (char)('a' + k % 26))};
    return ossia::value{std::vector<ossia::value>(S, ossia::value{k})};
  };
  auto whole = [&](const ossia::value& v) {
    if (auto s = v.target<std::string>())
    {
      if (s->empty())
        return true;
      return (int)s->size() == S && s->find_first_not_of((*s)[0]) == s->npos;
    }
    if (auto l = v.target<std::vector<ossia::value>>())
    {
      if (l->empty())
        return true;
      for (auto& x : *l)
        if (!x.target<int>() || *x.target<int>() != *l->front().target<int>())
          return false;
      return (int)l->size() == S;
    }
    return false;
  };
  std::atomic<int> told{}, bad{};
  p->add_callback([&](const ossia::value& v) {
    told++;
    if (!whole(v))
      bad++;
  });
  c.nontrivial();
  std::atomic<int> go{};
  std::vector<std::thread> th;
  for (int w = 0; w < W; w++)
    th.emplace_back([&, w] {
      go++;
      while (go < W + R)
        ;
      for (int i = 0; i < K; i++)
      {
        auto v = make(w * 1000 + i);
        switch (i % 3)
        {
          case 0:
            p->set_value(v);
            break;
          case 1:
            p->push_value(std::move(v));
            break;
          default:
            p->set_value(std::move(v));
        }
      }
    });
  for (int r = 0; r < R; r++)
    th.emplace_back([&] {
      go++;
      while (go < W + R)
        ;
      for (int i = 0; i < K; i++)
        if (!whole(p->value()))
          bad++;
    });
  for (auto& t : th)
    t.join();
  VF_CHECK(bad == 0, bad << " values were not whole");
  VF_CHECK(told == W * K, "the observer was called " << told << " times for " << W * K << " writes");
}
