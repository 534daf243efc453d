#pragma once
// Stand-in for libremidi's message type (MIDI 1 byte messages).
#include <algorithm>
#include <cstdint>
#include <vector>

namespace libremidi
{
using midi_bytes = std::vector<unsigned char>;

template <typename T, typename U, typename V>
constexpr auto clamp(T v, U lo, V hi)
{
  return std::max<int>(std::min<int>((int)v, (int)hi), (int)lo);
}

enum class message_type : uint8_t
{
  INVALID = 0x0,
  NOTE_OFF = 0x80,
  NOTE_ON = 0x90,
  POLY_PRESSURE = 0xA0,
  CONTROL_CHANGE = 0xB0,
  PROGRAM_CHANGE = 0xC0,
  AFTERTOUCH = 0xD0,
  PITCH_BEND = 0xE0,
  SYSTEM_EXCLUSIVE = 0xF0
};

struct message
{
  midi_bytes bytes;
  double timestamp{};

  message() = default;
  message(const midi_bytes& b, double t = 0.) : bytes(b), timestamp(t) { }

  static uint8_t make_command(message_type type, int channel) noexcept
  {
    return (uint8_t)((uint8_t)type | clamp(channel - 1, 0, 15));
  }
  static message make(uint8_t a, uint8_t b) { return message{midi_bytes{a, b}}; }
  static message make(uint8_t a, uint8_t b, uint8_t c)
  {
    return message{midi_bytes{a, b, c}};
  }
  static message note_on(uint8_t channel, uint8_t note, uint8_t vel)
  {
    return make(make_command(message_type::NOTE_ON, channel), note, vel);
  }
  static message note_off(uint8_t channel, uint8_t note, uint8_t vel)
  {
    return make(make_command(message_type::NOTE_OFF, channel), note, vel);
  }
  static message control_change(uint8_t channel, uint8_t c, uint8_t v)
  {
    return make(make_command(message_type::CONTROL_CHANGE, channel), c, v);
  }
  static message program_change(uint8_t channel, uint8_t v)
  {
    return make(make_command(message_type::PROGRAM_CHANGE, channel), v);
  }
  static message pitch_bend(uint8_t channel, int value)
  {
    return make(
        make_command(message_type::PITCH_BEND, channel),
        (unsigned char)(value & 0x7F), (unsigned char)((value >> 7) & 0x7F));
  }
  static message pitch_bend(uint8_t channel, uint8_t lsb, uint8_t msb)
  {
    return make(make_command(message_type::PITCH_BEND, channel), lsb, msb);
  }

  bool empty() const { return bytes.empty(); }
  std::size_t size() const { return bytes.size(); }
  bool is_meta_event() const { return !bytes.empty() && bytes[0] == 0xFF; }
  int get_channel() const
  {
    if (!bytes.empty() && (bytes[0] & 0xF0) != 0xF0)
      return (bytes[0] & 0xF) + 1;
    return 0;
  }
  message_type get_message_type() const
  {
    if (bytes.empty())
      return message_type::INVALID;
    if (bytes[0] >= (uint8_t)message_type::SYSTEM_EXCLUSIVE)
      return (message_type)(bytes[0] & 0xFF);
    return (message_type)(bytes[0] & 0xF0);
  }
  auto& operator[](int i) { return bytes[i]; }
  auto& operator[](int i) const { return bytes[i]; }
  auto begin() const { return bytes.begin(); }
  auto end() const { return bytes.end(); }
};
}
