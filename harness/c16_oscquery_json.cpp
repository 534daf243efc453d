// C16: the OSCQuery description of a device: what the JSON namespace and the change messages tell,
// a mirror which reads them knows.
#include "oscq_gen.hpp"

const char* const vf::rule
    = "trees of up to 12 nodes with parameters of every type (values, units, domains, bounding, access, filters, default "
      "values, tags, texts, numbers and flags), written as JSON and read in another device, whole, in parts, or message "
      "by message along a history of changes; non-trivial: at least two parameters with attributes";

namespace
{
std::string str(const rapidjson::StringBuffer& b) { return std::string(b.GetString(), b.GetSize()); }
}

VF_PROP(whole, 20000, 200000)
{
  generic_device a{"a"}, b{"b"};
  int params = 0;
  build(c, a.get_root_node(), params);
  auto json = str(oq::json_writer::query_namespace(a.get_root_node()));
  VF_NOTE(json);
  auto doc = oq::json_parser::parse(json);
  VF_CHECK(!doc->HasParseError(), "the description of the device is not valid JSON: " << json);
  VF_CHECK(oq::json_parser::message_type(*doc) == oq::message_type::Namespace, "not seen as a namespace");
  oq::json_parser::parse_namespace(b.get_root_node(), *doc);
  compare_rec(a.get_root_node(), b.get_root_node(), "");
  // and the copy describes itself in the same way
  auto again = str(oq::json_writer::query_namespace(b.get_root_node()));
  VF_CHECK(again == json, "the copy is described as " << again << " instead of " << json);
  // again, now that everything exists, from some node
  std::vector<node_base*> all;
  collect(a.get_root_node(), all);
  auto n = all[c.draw(all.size())];
  std::string where = n->osc_address();
  for(int i = 0; i < 2; i++)
  {
    std::vector<node_base*> sub;
    collect(*n, sub);
    auto m = sub[c.draw(sub.size())];
    if(auto p = m->get_parameter())
    {
      auto v = gen_for(c, *p);
      auto def = get_default_value(*m);
      if(p->get_value_type() == val_type::LIST && def && (holds_impulse(*def) || holds_impulse(v)))
        continue;
      p->set_value(v);
      if(def)
      {
        set_default_value(*m, std::nullopt);
        set_default_value(*m, colour8(*p) ? gen_for(c, *p) : alike(c, *p, p->value()));
      }
      settings(c, *p);
    }
    decorate(c, *m);
  }
  if(c.coin())
    build(c, *n, params);
  auto update = str(oq::json_writer::query_namespace(*n));
  VF_NOTE("update: " << update);
  auto doc2 = oq::json_parser::parse(update);
  VF_CHECK(!doc2->HasParseError(), "the description of a node is not valid JSON");
  auto in_b = find_node(b.get_root_node(), where);
  VF_CHECK(in_b, where << " not found");
  if(n != &a.get_root_node() || true)
  {
    oq::json_parser::parse_namespace(b.get_root_node(), *doc2);
    auto target = find_node(b.get_root_node(), where);
    VF_CHECK(target, where << " not found any more");
    compare_rec(*n, *target, "(after an update of " + where + ")");
  }
  c.nontrivial(params >= 2);
}

namespace
{
// what a server tells its clients, as oscquery_server_protocol does
struct teller
{
  std::deque<std::string> out;
  void created(const node_base& n) { out.push_back(str(oq::json_writer::path_added(n))); }
  void removing(const node_base& n) { out.push_back(str(oq::json_writer::path_removed(n.osc_address()))); }
  void renamed(const node_base& n, std::string old)
  {
    auto o = n.osc_address();
    o.resize(o.find_last_of('/') + 1);
    out.push_back(str(oq::json_writer::path_renamed(o + old, n.osc_address())));
  }
  void parameter(const parameter_base& p) { attribute(p.get_node(), text_value_type()); }
  void attribute(const node_base& n, ossia::string_view attr)
  {
    out.push_back(str(oq::json_writer::attributes_changed(n, attr)));
  }
};
}

VF_PROP(changes, 20000, 200000)
{
  generic_device a{"a"}, b{"b"};
  teller t;
  a.on_node_created.connect<&teller::created>(t);
  a.on_node_removing.connect<&teller::removing>(t);
  a.on_node_renamed.connect<&teller::renamed>(t);
  a.on_parameter_created.connect<&teller::parameter>(t);
  a.on_attribute_modified.connect<&teller::attribute>(t);
  int params = 0;
  if(c.coin())
  {
    // some of it was there before the connection
    build(c, a.get_root_node(), params);
    auto doc = oq::json_parser::parse(str(oq::json_writer::query_namespace(a.get_root_node())));
    VF_CHECK(!doc->HasParseError(), "the description of the device is not valid JSON");
    oq::json_parser::parse_namespace(b.get_root_node(), *doc);
    t.out.clear();
  }
  std::vector<std::string> values;
  auto sync = [&] {
    while(!t.out.empty())
    {
      auto m = t.out.front();
      t.out.pop_front();
      VF_NOTE("  " << m);
      auto doc = oq::json_parser::parse(m);
      VF_CHECK(!doc->HasParseError(), "not JSON: " << m);
      switch(oq::json_parser::message_type(*doc))
      {
        case oq::message_type::PathAdded:
          oq::json_parser::parse_path_added(b.get_root_node(), (*doc)["DATA"].GetString(), *doc);
          break;
        case oq::message_type::PathRemoved:
          oq::json_parser::parse_path_removed(b.get_root_node(), *doc, false);
          break;
        case oq::message_type::PathRenamed:
          oq::json_parser::parse_path_renamed(b.get_root_node(), *doc);
          break;
        case oq::message_type::AttributesChanged: {
          parameter_base* req{};
          oq::json_parser::parse_attributes_changed(b.get_root_node(), *doc, req);
          break;
        }
        default:
          VF_FAIL("message of an unknown kind: " << m);
      }
    }
    // the values are asked for one by one
    std::vector<node_base*> all;
    collect(a.get_root_node(), all);
    for(auto n : all)
      if(auto p = n->get_parameter())
        if(auto m = find_node(b.get_root_node(), n->osc_address()))
          if(auto q = m->get_parameter())
          {
            q->set_value(p->value());
          }
    compare_rec(a.get_root_node(), b.get_root_node(), "");
  };
  int changes = 0;
  for(std::size_t i = 0; c.more(i, 20, 8); i++)
  {
    std::vector<node_base*> all;
    collect(a.get_root_node(), all);
    auto n = all[c.draw(all.size())];
    switch(c.draw(6))
    {
      case 0: {
        auto m = n->create_child(gen_name(c));
        VF_NOTE("created " << m->osc_address());
        if(c.coin())
          parametrize(c, *m, true), params++;
        break;
      }
      case 1:
        if(n->get_parent() && c.coin())
        {
          VF_NOTE("removed " << n->osc_address());
          n->get_parent()->remove_child(*n);
        }
        break;
      case 2:
        if(n->get_parent())
        {
          auto name = gen_name(c);
          VF_NOTE("renaming " << n->osc_address() << " to " << name);
          n->set_name(name);
        }
        break;
      case 3:
        if(n->get_parent() && !n->get_parameter())
        {
          VF_NOTE("parameter on " << n->osc_address());
          parametrize(c, *n, true);
          params++;
        }
        break;
      case 4:
        if(auto p = n->get_parameter())
        {
          VF_NOTE("settings of " << n->osc_address());
          settings(c, *p, true);
          changes++;
        }
        break;
      default:
        VF_NOTE("attributes of " << n->osc_address());
        decorate(c, *n, true);
        changes++;
    }
    if(c.coin())
      sync();
  }
  sync();
  c.nontrivial(params >= 2 && changes);
}
