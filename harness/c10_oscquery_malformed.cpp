// C10: anything can be received by an OSCQuery server, and by its mirrors, which go on afterwards.
#include "oscq_session.hpp"

const char* const vf::rule
    = "histories of up to 20 steps of an OSCQuery server and a mirror whose texts are damaged in transit - JSON values "
      "replaced by others of any type, members dropped, renamed or added, bytes changed, cut or doubled - or made up "
      "from the words of the protocol, in websocket messages, HTTP requests and HTTP answers both ways; then the damage "
      "stops and a new mirror reads the tree; non-trivial: at least 3 texts were damaged";

namespace
{
std::string word(vf::Case& c)
{
  static const std::vector<std::string> words
      = {"COMMAND", "DATA",    "FULL_PATH", "CONTENTS", "TYPE",      "VALUE",         "RANGE",         "MIN",
         "MAX",     "VALS",    "CLIPMODE",  "UNIT",     "EXTENDED_TYPE", "ACCESS",    "TAGS",          "DESCRIPTION",
         "PRIORITY", "DEFAULT_VALUE", "CRITICAL", "HIDDEN", "DISABLED", "REFRESH_RATE", "VALUE_STEP_SIZE", "INSTANCE_BOUNDS",
         "PATH_ADDED", "PATH_CHANGED", "PATH_REMOVED", "PATH_RENAMED", "ATTRIBUTES_CHANGED", "START_OSC_STREAMING",
         "LISTEN", "IGNORE", "OLD", "NEW", "LOCAL_SERVER_PORT", "LOCAL_SENDER_PORT", "OSC_PORT", "OSC_IP", "OSC_TRANSPORT",
         "WS_IP", "WS_PORT", "EXTENSIONS", "OSC_STREAMING", "NAME", "HOST_INFO", "ADD_NODE", "REMOVE_NODE", "RENAME_NODE",
         "HTML", "/", "/a", "/b", "/c", "/a/b", "/a/a", "/foo", "/foo.bar", "/*", "//a", "/a/", "a", "", "both", "clip", "wrap", "low",
         "color.rgb", "distance.m", "position.cart3D", "filepath", "floatArray", "list", "buffer", "url",
         "i", "f", "s", "T", "F", "N", "I", "c", "r", "ff", "fff", "ffff", "[ff]", "[fff]", "[[ff]f]", "[", "]", "[i", "iii", "sfT", "#FF00FF00", "#\xff\xff\xff\xff\xff\xff\xff\xff",
         "TRUE", "FALSE", "true", "nan", "UDP", "TCP", "127.0.0.1"};
  return words[c.draw(words.size())];
}
using alloc = rapidjson::Document::AllocatorType;
rapidjson::Value anything(vf::Case& c, alloc& a, int depth = 0)
{
  rapidjson::Value v;
  auto str = [&](const std::string& s) { return rapidjson::Value(s.data(), (rapidjson::SizeType)s.size(), a); };
  switch(c.draw(depth > 3 ? 8 : 11))
  {
    case 0: break;
    case 1: v.SetBool(c.coin()); break;
    case 2: v.SetInt((int)c.range(-3, 5)); break;
    case 3: v.SetDouble(c.pick({0., -0.5, 1e300, -1e300, 1e-300, 4294967296., 1e12, 0.1})); break;
    case 4: v.SetInt64(c.pick<int64_t>({INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, UINT32_MAX, 20000, 5678})); break;
    case 5:
    case 6: v = str(word(c)); break;
    case 7: v = str(text(c)); break;
    case 8:
      v.SetArray();
      for(std::size_t i = 0; c.more(i, 6, 2); i++)
        v.PushBack(anything(c, a, depth + 1), a);
      break;
    default:
      v.SetObject();
      for(std::size_t i = 0; c.more(i, 6, 2); i++)
        v.AddMember(str(word(c)), anything(c, a, depth + 1), a);
      break;
  }
  return v;
}
void subvalues(rapidjson::Value& v, std::vector<rapidjson::Value*>& r)
{
  r.push_back(&v);
  if(v.IsArray())
    for(auto& e : v.GetArray())
      subvalues(e, r);
  if(v.IsObject())
    for(auto& e : v.GetObject())
      subvalues(e.value, r);
}
std::string written(const rapidjson::Value& v)
{
  rapidjson::StringBuffer b;
  ossia::json_writer w{b};
  v.Accept(w);
  return {b.GetString(), b.GetSize()};
}
std::string query(vf::Case& c)
{
  std::string s = c.pick({"/", "/a", "/b", "/a/b", "/*", "//", "/a/", "/%", "/%4", "/%41", "/%zz", "/?"});
  for(std::size_t i = 0; c.more(i, 4, 1); i++)
  {
    s += i ? "&" : "?";
    s += c.chance(1, 8) ? text(c) : word(c);
    if(c.coin())
      s += "=" + (c.chance(1, 4) ? text(c) : c.coin() ? word(c) : std::string(c.pick({"%", "%f", "%41", "=", "&", "1", "-1e9", "999999999999"})));
  }
  return s;
}
std::string path(vf::Case& c)
{
  return c.chance(1, 8) ? word(c) : std::string(c.pick({"/", "/a", "/b", "/c", "/foo", "/a/a", "/a/b", "/foo.bar", "/bar.1", "/a.1", "/zz", "/zz/y", "zz"}));
}
std::string typetag(vf::Case& c)
{
  if(c.chance(3, 5))
    return c.pick({"i", "f", "s", "c", "T", "F", "N", "I", "r", "ff", "fff", "ffff", "[ff]", "sf", "iT", "[", "]", "b", "h", "", "\xff"});
  std::string r;
  for(std::size_t i = 0; c.more(i, 8, 3); i++)
    r += c.pick({'i', 'f', 's', 'c', 'T', 'F', 'N', 'r', '[', ']'});
  return r;
}
// the description of a node, in which much can be wrong
rapidjson::Value description(vf::Case& c, alloc& a, bool full_path, int depth = 0)
{
  rapidjson::Value v;
  v.SetObject();
  auto str = [&](const std::string& s) { return rapidjson::Value(s.data(), (rapidjson::SizeType)s.size(), a); };
  auto add = [&](const char* k, rapidjson::Value x) {
    if(c.chance(1, 12))
      x = anything(c, a);
    v.AddMember(str(k), x, a);
  };
  std::function<rapidjson::Value(int)> val = [&](int d) {
    rapidjson::Value x;
    switch(c.draw(d > 2 ? 5 : 7))
    {
      case 0: break;
      case 1: x.SetInt((int)c.range(-3, 300)); break;
      case 2: x.SetDouble(num(c)); break;
      case 3: x = str(c.pick({"", "x", "abc", "#FF8000FF", "#12", "#\x80\xff\x80\xff\x80\xff\x80\xff", "#-=/+*!~}"})); break;
      case 4: x.SetBool(c.coin()); break;
      default:
        x.SetArray();
        for(std::size_t i = 0; c.more(i, 6, 2); i++)
          x.PushBack(val(d + 1), a);
    }
    return x;
  };
  auto range = [&]() {
    rapidjson::Value x;
    x.SetObject();
    if(c.coin())
      x.AddMember("MIN", val(1), a);
    if(c.coin())
      x.AddMember("MAX", val(1), a);
    if(c.chance(1, 4))
      x.AddMember("VALS", val(0), a);
    return x;
  };
  if(full_path || c.chance(3, 4))
    add("FULL_PATH", str(path(c)));
  if(c.chance(2, 3))
    add("TYPE", str(typetag(c)));
  if(c.chance(2, 3))
    add("VALUE", val(0));
  if(c.chance(1, 4))
    add("DEFAULT_VALUE", val(0));
  if(c.chance(1, 3))
  {
    if(c.coin())
      add("RANGE", range());
    else
    {
      rapidjson::Value x;
      x.SetArray();
      for(std::size_t i = 0; c.more(i, 6, 2); i++)
        x.PushBack(range(), a);
      add("RANGE", std::move(x));
    }
  }
  if(c.chance(1, 4))
  {
    rapidjson::Value x;
    x.SetArray();
    for(std::size_t i = 0; c.more(i, 3, 1); i++)
      x.PushBack(str(c.pick({"color", "rgb", "argb8", "rgba8", "distance", "m", "position", "cart3D", "x"})), a);
    add(c.coin() ? "UNIT" : "EXTENDED_TYPE", std::move(x));
  }
  if(c.chance(1, 6))
    add("EXTENDED_TYPE", str(c.pick({"filepath", "url", "buffer", "list", "floatArray", "color.rgba8", "z"})));
  if(c.chance(1, 8))
    add("UNIT", str(c.pick({"color.rgba8", "distance.m", "position.cart3D", "z", "none"})));
  if(c.chance(1, 6))
    add("CLIPMODE", c.coin() ? str(c.pick({"none", "both", "low", "high", "wrap", "fold", "x", "xx", ""})) : val(0));
  for(auto k : {"ACCESS", "TAGS", "DESCRIPTION", "PRIORITY", "CRITICAL", "HIDDEN", "DISABLED", "REFRESH_RATE", "VALUE_STEP_SIZE", "INSTANCE_BOUNDS",
                "REPETITION_FILTER", "APP_NAME"})
    if(c.chance(1, 10))
      add(k, val(0));
  if(depth < 3 && c.chance(1, 3))
  {
    rapidjson::Value x;
    x.SetObject();
    for(std::size_t i = 0; c.more(i, 4, 2); i++)
      x.AddMember(str(c.chance(1, 6) ? word(c) : gen_name(c)), c.chance(1, 10) ? anything(c, a) : description(c, a, false, depth + 1), a);
    add("CONTENTS", std::move(x));
  }
  return v;
}
std::string made_up(vf::Case& c)
{
  if(c.chance(1, 4))
    return query(c);
  if(c.chance(2, 3))
  {
    // nearly a message
    rapidjson::Document d;
    d.SetObject();
    auto& a = d.GetAllocator();
    auto str = [&](const std::string& s) { return rapidjson::Value(s.data(), (rapidjson::SizeType)s.size(), a); };
    switch(c.draw(9))
    {
      case 0: {
        d.AddMember("COMMAND", "PATH_ADDED", a);
        d.AddMember("DATA", str(path(c)), a);
        auto o = description(c, a, true);
        for(auto& m : o.GetObject())
          d.AddMember(m.name, m.value, a);
        break;
      }
      case 1:
        d.AddMember("COMMAND", "PATH_REMOVED", a);
        d.AddMember("DATA", str(path(c)), a);
        break;
      case 2: {
        d.AddMember("COMMAND", "PATH_RENAMED", a);
        rapidjson::Value o;
        o.SetObject();
        o.AddMember("OLD", str(path(c)), a);
        o.AddMember("NEW", str(path(c)), a);
        d.AddMember("DATA", o, a);
        break;
      }
      case 3:
      case 4:
        d.AddMember("COMMAND", "ATTRIBUTES_CHANGED", a);
        d.AddMember("DATA", description(c, a, true), a);
        break;
      case 5:
        d.AddMember("COMMAND", str(c.pick({"LISTEN", "IGNORE"})), a);
        d.AddMember("DATA", str(path(c)), a);
        break;
      case 6: {
        // values
        auto o = description(c, a, true);
        for(auto& m : o.GetObject())
          d.AddMember(str(path(c)), m.value, a);
        break;
      }
      default: {
        // a namespace
        auto o = description(c, a, true);
        return written(o);
      }
    }
    return written(d);
  }
  rapidjson::Document d;
  if(c.coin())
  {
    // what has the look of a command
    d.SetObject();
    std::string cmd = c.pick({"PATH_ADDED", "PATH_CHANGED", "PATH_REMOVED", "PATH_RENAMED", "ATTRIBUTES_CHANGED", "START_OSC_STREAMING", "LISTEN", "IGNORE"});
    d.AddMember("COMMAND", rapidjson::Value(cmd.data(), (rapidjson::SizeType)cmd.size(), d.GetAllocator()), d.GetAllocator());
    d.AddMember("DATA", anything(c, d.GetAllocator()), d.GetAllocator());
    if(c.coin())
      d.AddMember("FULL_PATH", anything(c, d.GetAllocator()), d.GetAllocator());
    return written(d);
  }
  return written(anything(c, d.GetAllocator()));
}
void damage(vf::Case& c, std::string& s)
{
  rapidjson::Document d;
  d.Parse<rapidjson::kParseNanAndInfFlag>(s.data(), s.size());
  if(!d.HasParseError() && c.chance(4, 5))
  {
    for(int i = 0, n = (int)c.range(1, 3); i < n; i++)
    {
      std::vector<rapidjson::Value*> all;
      subvalues(d, all);
      auto& v = *all[c.draw(all.size())];
      auto& a = d.GetAllocator();
      switch(c.draw(5))
      {
        case 0:
        case 1: v = anything(c, a); break;
        case 2:
          if(v.IsObject() && v.MemberCount())
          {
            auto m = v.MemberBegin() + c.draw(v.MemberCount());
            if(c.coin())
              v.EraseMember(m);
            else
            {
              auto w = word(c);
              m->name.SetString(w.data(), (rapidjson::SizeType)w.size(), a);
            }
          }
          else if(v.IsArray() && v.Size())
            v.Erase(v.Begin() + c.draw(v.Size()));
          break;
        case 3:
          if(v.IsObject())
          {
            auto w = word(c);
            v.AddMember(rapidjson::Value(w.data(), (rapidjson::SizeType)w.size(), a), anything(c, a), a);
          }
          else if(v.IsArray())
            v.PushBack(anything(c, a), a);
          break;
        default: {
          // a part of it elsewhere
          rapidjson::Value cp;
          cp.CopyFrom(*all[c.draw(all.size())], a);
          v = cp;
        }
      }
    }
    s = written(d);
  }
  else
    for(int i = 0, n = (int)c.range(1, 3); i < n; i++)
    {
      const auto at = c.draw(s.size() + 1);
      switch(c.draw(4))
      {
        case 0: s.resize(at); break;
        case 1:
          if(at < s.size())
            s[at] = (char)c.draw(256);
          break;
        case 2: s.insert(at, word(c)); break;
        default: s.insert(at, s.substr(c.draw(s.size() + 1), c.draw(20)));
      }
    }
}
std::string shown(const std::string& s)
{
  std::string r;
  for(unsigned char ch : s)
    if(ch >= 32 && ch < 127)
      r += (char)ch;
    else
    {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", ch);
      r += b;
    }
  return r;
}
}

VF_PROP(damaged, 10000, 60000)
{
  ::session s{c};
  auto& web = memweb::network::instance();
  int params = 0, damages = 0;
  build(c, s.a->get_root_node(), params);
  s.connect();
  struct guard
  {
    ~guard() { memweb::network::instance().in_transit = {}; }
  } g;
  const int rate = (int)c.pick({2, 4, 10});
  web.in_transit = [&](std::string& m) {
    if(!c.chance(1, rate))
      return;
    if(c.chance(1, 4))
      m = made_up(c);
    else
      damage(c, m);
    VF_NOTE("received: " << shown(m));
    damages++;
  };
  // nobody looks at these exceptions
  auto commands = [&] {
    try
    {
      s.run_commands();
    }
    catch(const std::exception& e)
    {
      VF_FAIL("while running the commands: " << e.what());
    }
  };
  for(std::size_t step = 0; c.more(step, 20, 8); step++)
  {
    auto all = s.nodes();
    auto n = all[c.draw(all.size())];
    auto& m = s.mirrors[0];
    std::vector<node_base*> theirs;
    collect(m.dev->get_root_node(), theirs);
    auto t = theirs[c.draw(theirs.size())];
    switch(c.draw(16))
    {
      case 0: n->create_child(gen_name(c)); break;
      case 1:
        if(!n->get_parameter() && n->get_parent())
          parametrize(c, *n, true), params++;
        break;
      case 2: decorate(c, *n, true); break;
      case 3:
        if(n->get_parameter())
          settings(c, *n->get_parameter(), true);
        break;
      case 4:
        if(n->get_parent())
          n->set_name(gen_name(c));
        break;
      case 5:
        if(n->get_parent() && c.chance(1, 3))
          n->get_parent()->remove_child(*n);
        break;
      case 6:
        if(t->get_parameter())
          m.proto->pull_async(*t->get_parameter());
        break;
      case 7: {
        parameter_data d{safe_name(c)};
        m.proto->request_add_node(*t, d);
        break;
      }
      case 8:
        if(t->get_parent())
          m.proto->request_rename_node(*t, safe_name(c));
        break;
      case 9: m.proto->update_async(c.coin() ? *t : m.dev->get_root_node()); break;
      case 10: {
        auto k = c.coin() ? t : n;
        if(k->get_parameter())
          k->get_parameter()->add_callback([](const ossia::value&) {});
        break;
      }
      case 11:
        if(t->get_parameter())
        {
          auto v = wire(c, *t->get_parameter());
          t->get_parameter()->push_value(v);
        }
        break;
      case 12:
        if(n->get_parameter())
          n->get_parameter()->push_value(wire(c, *n->get_parameter()));
        break;
      default:
        // out of nowhere
        for(std::size_t i = 0; !web.connections.empty() && c.more(i, 6, 3); i++)
        {
          auto msg = memweb::message{true, made_up(c)};
          VF_NOTE("sent: " << shown(msg.data));
          damages++;
          (c.coin() ? web.connections[0]->to_server : web.connections[0]->to_client).push_back(std::move(msg));
        }
    }
    while(c.chance(3, 4) && deliver(&c))
      if(c.chance(1, 4))
        commands();
  }
  web.in_transit = {};
  for(int i = 0; i < 3; i++)
  {
    while(deliver(&c))
      ;
    commands();
  }
  // the server still serves
  s.mirrors.clear();
  while(deliver(&c))
    ;
  s.connect();
  std::function<void(node_base&, node_base&)> same_names = [&](node_base& a, node_base& b) {
    auto ca = a.children_copy(), cb = b.children_copy();
    VF_CHECK(ca.size() == cb.size(), "a new mirror has " << cb.size() << " children of " << a.osc_address() << " instead of " << ca.size());
    for(std::size_t i = 0; i < ca.size(); i++)
    {
      VF_CHECK(ca[i]->get_name() == cb[i]->get_name(), "a new mirror has " << cb[i]->osc_address() << " instead of " << ca[i]->osc_address());
      VF_CHECK(bool(ca[i]->get_parameter()) == bool(cb[i]->get_parameter()), "parameter of " << ca[i]->osc_address());
      same_names(*ca[i], *cb[i]);
    }
  };
  same_names(s.a->get_root_node(), s.mirrors[0].dev->get_root_node());
  c.nontrivial(damages >= 3);
}
