// OSC devices of every kind, connected by in-memory pipes.
#pragma once
#include "osc_ref.hpp"

#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/context.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/osc/detail/osc_1_1_extended_policy.hpp>
#include <ossia/network/osc/detail/osc_1_1_policy.hpp>
#include <ossia/network/osc/detail/osc_protocol_common.hpp>
#include <ossia/network/osc/osc.hpp>
#include <ossia/protocols/osc/osc_generic_protocol.hpp>

#include <oscpack/ip/UdpSocket.h>

namespace pairs
{
using namespace ossia;
using namespace ossia::net;
struct pipe
{
  std::deque<std::string> q;
  std::function<void(const char*, std::size_t)> rx;
};
inline std::map<int, pipe> pipes;
struct mem_send
{
  int port{};
  mem_send(const send_socket_configuration& c, boost::asio::io_context&) : port{c.port} { }
  mem_send(const send_fd_configuration& c, boost::asio::io_context&) : port{std::stoi(c.fd)} { }
  void connect() { }
  void write(const char* d, std::size_t n) { pipes[port].q.emplace_back(d, n); }
};
struct mem_recv
{
  int port{};
  mem_recv(const receive_socket_configuration& c, boost::asio::io_context&) : port{c.port} { }
  mem_recv(const receive_fd_configuration& c, boost::asio::io_context&) : port{std::stoi(c.fd)} { }
  ~mem_recv() { pipes[port].rx = {}; }
  void open() { }
  template <class F>
  void receive(F f)
  {
    pipes[port].rx = f;
  }
};
// one packet, in a buffer of its size
inline bool pump(int port)
{
  auto& p = pipes[port];
  if (p.q.empty())
    return false;
  std::vector<char> exactly(p.q.front().begin(), p.q.front().end());
  p.q.pop_front();
  if (p.rx)
    p.rx(exactly.data(), exactly.size());
  return true;
}

enum kind
{
  LEGACY,
  C10,
  C11,
  CEXT,
  S10,
  SEXT
};
inline ref::flavour flavour(kind k)
{
  return k == C11 ? ref::V11 : (k == CEXT || k == SEXT) ? ref::EXT : ref::V10;
}
inline bool is_client(kind k) { return k != S10 && k != SEXT; }
template <class Mode>
using bidir = osc_generic_bidir_protocol<Mode, mem_send, mem_recv>;
template <class Mode>
std::unique_ptr<protocol_base> make(network_context_ptr ctx, int to, int from)
{
  send_socket_configuration s;
  s.host = "127.0.0.1";
  s.port = (uint16_t)to;
  receive_socket_configuration r;
  r.host = "127.0.0.1";
  r.port = (uint16_t)from;
  return std::make_unique<bidir<Mode>>(ctx, s, r);
}
inline std::unique_ptr<protocol_base> make(kind k, network_context_ptr ctx, int to, int from)
{
  switch (k)
  {
    case C10:
      return make<osc_protocol_client<osc_1_0_policy>>(ctx, to, from);
    case C11:
      return make<osc_protocol_client<osc_1_1_policy>>(ctx, to, from);
    case CEXT:
      return make<osc_protocol_client<osc_extended_policy>>(ctx, to, from);
    case S10:
      return make<osc_protocol_server<osc_1_0_policy>>(ctx, to, from);
    case SEXT:
      return make<osc_protocol_server<osc_extended_policy>>(ctx, to, from);
    default:
      return std::make_unique<osc_protocol>("127.0.0.1", (uint16_t)to, (uint16_t)from);
  }
}
}
