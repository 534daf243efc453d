// Stand-in for oscpack's UDP sockets: a deterministic in-memory network.
// Packets sent to a port are queued; the harness delivers them by calling
// oscpack::memnet::instance().pump() on the thread of its choice.
#pragma once
#include <cstdint>
#include <deque>
#include <map>
#include <mutex>
#include <condition_variable>
#include <stdexcept>
#include <string>

namespace oscpack
{
class IpEndpointName
{
public:
  static constexpr unsigned long ANY_ADDRESS = 0xFFFFFFFF;
  static constexpr int ANY_PORT = -1;
  IpEndpointName() = default;
  explicit IpEndpointName(const char* name, int p = ANY_PORT)
      : address(0x7F000001), port(p)
  {
  }
  explicit IpEndpointName(int p) : address(ANY_ADDRESS), port(p) {}
  IpEndpointName(unsigned long a, int p) : address(a), port(p) {}
  void AddressAsString(char* s) const { std::string("127.0.0.1").copy(s, 9); s[9] = 0; }
  unsigned long address = ANY_ADDRESS;
  int port = ANY_PORT;
};
class PacketListener
{
public:
  virtual ~PacketListener() = default;
  virtual void ProcessPacket(const char* data, int size, const IpEndpointName& ip) = 0;
};
class TimerListener
{
public:
  virtual ~TimerListener() = default;
  virtual void TimerExpired() = 0;
};
struct memnet
{
  struct packet
  {
    int to, from;
    std::string data;
  };
  std::mutex mtx;
  std::map<int, PacketListener*> listeners;
  std::deque<packet> queue;
  int next_port = 50000;
  std::size_t sent = 0, delivered = 0, dropped = 0;

  static memnet& instance()
  {
    static memnet m;
    return m;
  }
  void bind(int port, PacketListener* l)
  {
    std::lock_guard _{mtx};
    if (listeners.count(port))
      throw std::runtime_error("unable to bind udp socket");
    listeners[port] = l;
  }
  void unbind(int port)
  {
    std::lock_guard _{mtx};
    listeners.erase(port);
  }
  void send(int from, int to, const char* d, std::size_t n)
  {
    std::lock_guard _{mtx};
    if (n == 8 && std::string(d, n) == "__stop_" + std::string(1, '\0'))
      return;
    ++sent;
    queue.push_back({to, from, std::string(d, n)});
  }
  // Delivers one packet; false when there is nothing to deliver
  bool pump_one()
  {
    packet p;
    PacketListener* l{};
    {
      std::lock_guard _{mtx};
      if (queue.empty())
        return false;
      p = std::move(queue.front());
      queue.pop_front();
      auto it = listeners.find(p.to);
      if (it == listeners.end())
      {
        ++dropped;
        return true;
      }
      l = it->second;
      ++delivered;
    }
    l->ProcessPacket(p.data.data(), (int)p.data.size(), IpEndpointName(0x7F000001, p.from));
    return true;
  }
  std::size_t pump(std::size_t max = 100000)
  {
    std::size_t n = 0;
    while (n < max && pump_one())
      ++n;
    return n;
  }
};

class UdpTransmitSocket
{
  int m_to, m_local;

public:
  explicit UdpTransmitSocket(const IpEndpointName& ep) : m_to(ep.port)
  {
    auto& n = memnet::instance();
    std::lock_guard _{n.mtx};
    m_local = n.next_port++;
  }
  int LocalPort() const { return m_local; }
  void Send(const char* d, std::size_t n) { memnet::instance().send(m_local, m_to, d, n); }
};

namespace detail
{
struct Implementation
{
};
template <typename I>
class UdpSocket
{
public:
  I impl_;
  virtual void AsynchronousBreak() {}
  void Bind(const IpEndpointName&) {}
};
template <typename I>
class SocketReceiveMultiplexer
{
public:
  void AttachSocketListener(void*, PacketListener*) {}
  void DetachSocketListener(void*, PacketListener*) {}
  void AttachPeriodicTimerListener(int, TimerListener*) {}
  void Run() {}
  void Break() {}
  void AsynchronousBreak() {}
};
template <typename I>
class UdpListeningReceiveSocket : public UdpSocket<I>
{
  int m_port;
  std::mutex m_mtx;
  std::condition_variable m_cv;
  bool m_stop = false;

public:
  UdpListeningReceiveSocket(const IpEndpointName& ep, PacketListener* l) : m_port(ep.port)
  {
    memnet::instance().bind(m_port, l);
  }
  ~UdpListeningReceiveSocket() { memnet::instance().unbind(m_port); }
  void Run()
  {
    std::unique_lock lk{m_mtx};
    m_cv.wait(lk, [&] { return m_stop; });
  }
  void AsynchronousBreak() override
  {
    {
      std::lock_guard lk{m_mtx};
      m_stop = true;
    }
    m_cv.notify_all();
  }
};
}
}
