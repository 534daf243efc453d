#pragma once
// In-memory MIDI ports: outputs record what was sent, inputs can be injected.
#include <functional>
#include <libremidi/api.hpp>
#include <libremidi/message.hpp>
#include <string>
#include <string_view>

namespace libremidi
{
struct memmidi
{
  std::vector<message> sent;
  std::function<void(const message&)> input;
  static memmidi& instance()
  {
    static memmidi m;
    return m;
  }
};
class midi_in
{
public:
  using message_callback = std::function<void(const message&)>;
  midi_in(API, std::string_view) { }
  void open_port(unsigned, std::string_view) { }
  void open_virtual_port(std::string_view) { }
  void close_port() { }
  void set_callback(message_callback cb) { memmidi::instance().input = std::move(cb); }
  void cancel_callback() { memmidi::instance().input = {}; }
  unsigned get_port_count() { return 1; }
  std::string get_port_name(unsigned) { return "mem-in"; }
};
class midi_out
{
public:
  midi_out(API, std::string_view) { }
  void open_port(unsigned, std::string_view) { }
  void open_virtual_port(std::string_view) { }
  void close_port() { }
  void send_message(const message& m) { memmidi::instance().sent.push_back(m); }
  unsigned get_port_count() { return 1; }
  std::string get_port_name(unsigned) { return "mem-out"; }
};
}
