// An in-memory web for the OSCQuery server and mirror: websocket connections
// are pairs of ordered queues, HTTP requests and replies go through one more
// ordered queue, and nothing moves until the harness says so.
#pragma once
#include <ossia/detail/config.hpp>
#include <ossia/detail/json.hpp>
#include <ossia/detail/logger.hpp>
#include <ossia/network/exceptions.hpp>
#include <ossia/network/sockets/websocket_reply.hpp>

#include <boost/asio.hpp>
#include <nano_signal_slot.hpp>
#include <websocketpp/close.hpp>
#include <websocketpp/common/connection_hdl.hpp>
#include <websocketpp/frame.hpp>

#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>

namespace ossia::net
{
class websocket_server;
class websocket_client;
}
namespace memweb
{
struct message
{
  bool text{};
  std::string data;
};
struct connection
{
  ossia::net::websocket_server* server{};
  ossia::net::websocket_client* client{};
  std::deque<message> to_server, to_client;
  bool closed{};

  // what the server uses of a websocketpp connection
  boost::asio::ip::tcp::socket& get_raw_socket();
  std::string get_remote_endpoint() const { return "memory"; }
  void close(int, const std::string&);
  void send(std::string d, websocketpp::frame::opcode::value op = websocketpp::frame::opcode::TEXT)
  {
    if(!closed)
      to_client.push_back({op == websocketpp::frame::opcode::TEXT, std::move(d)});
  }
  void send(const void* d, std::size_t n, websocketpp::frame::opcode::value op)
  {
    send(std::string((const char*)d, n), op);
  }
};
struct network
{
  std::recursive_mutex mtx;
  std::map<int, ossia::net::websocket_server*> servers;
  std::vector<std::shared_ptr<connection>> connections;
  std::deque<std::function<void()>> http;
  // what happens to the texts which are exchanged
  std::function<void(std::string&)> in_transit;
  std::size_t errors = 0, http_ok = 0, http_failed = 0;
  static network& instance()
  {
    static network n;
    return n;
  }
};
inline boost::asio::ip::tcp::socket& connection::get_raw_socket()
{
  // the server asks for the address of its client
  struct pair
  {
    boost::asio::io_context ctx;
    boost::asio::ip::tcp::acceptor acc{ctx, {boost::asio::ip::address_v4::loopback(), 0}};
    boost::asio::ip::tcp::socket a{ctx}, b{ctx};
    pair()
    {
      a.connect(acc.local_endpoint());
      acc.accept(b);
    }
  };
  static pair p;
  return p.b;
}
}

namespace ossia::net
{
class websocket_server
{
public:
  using connection_handler = websocketpp::connection_hdl;
  using handler_t = std::function<server_reply(
      const connection_handler&, websocketpp::frame::opcode::value, const std::string&)>;
  std::function<void(connection_handler)> opened, closed;
  handler_t handler;
  int m_port = -1;

  websocket_server() = default;
  ~websocket_server() { stop(); }
  template <typename H>
  void set_open_handler(H h) { opened = h; }
  template <typename H>
  void set_close_handler(H h) { closed = h; }
  template <typename H>
  void set_message_handler(H h) { handler = h; }
  void listen(uint16_t port)
  {
    auto& n = memweb::network::instance();
    std::lock_guard l{n.mtx};
    m_port = port;
    n.servers[port] = this;
  }
  void run() { }
  void stop()
  {
    auto& n = memweb::network::instance();
    std::lock_guard l{n.mtx};
    if(m_port >= 0)
      n.servers.erase(m_port);
    m_port = -1;
  }
  websocket_server& impl() { return *this; }
  std::shared_ptr<memweb::connection> get_con_from_hdl(const connection_handler& h)
  {
    auto p = h.lock();
    if(!p)
      throw std::runtime_error("bad connection");
    return std::static_pointer_cast<memweb::connection>(p);
  }
  void close(connection_handler h) { get_con_from_hdl(h)->close(0, ""); }
  void send_message(connection_handler h, const std::string& m) { get_con_from_hdl(h)->send(m); }
  void send_message(connection_handler h, const server_reply& m)
  {
    const bool text = m.type == server_reply::data_type::json || m.type == server_reply::data_type::html;
    get_con_from_hdl(h)->send(m.data, text ? websocketpp::frame::opcode::TEXT : websocketpp::frame::opcode::BINARY);
  }
  void send_message(connection_handler h, const rapidjson::StringBuffer& m)
  {
    get_con_from_hdl(h)->send(m.GetString(), m.GetSize(), websocketpp::frame::opcode::TEXT);
  }
  void send_binary_message(connection_handler h, std::string_view m)
  {
    get_con_from_hdl(h)->send(m.data(), m.size(), websocketpp::frame::opcode::BINARY);
  }

  void receive(std::shared_ptr<memweb::connection> con, const memweb::message& m)
  {
    try
    {
      connection_handler h = con;
      auto res = handler(h, m.text ? websocketpp::frame::opcode::TEXT : websocketpp::frame::opcode::BINARY, m.data);
      if(res.data.size() > 0)
        send_message(h, res);
    }
    catch(const std::exception&)
    {
      memweb::network::instance().errors++;
    }
  }
};

class websocket_client
{
public:
  using connection_handler = websocketpp::connection_hdl;
  Nano::Signal<void()> on_open;
  Nano::Signal<void()> on_close;
  Nano::Signal<void()> on_fail;
  std::function<void(connection_handler, websocketpp::frame::opcode::value, std::string&)> handler;
  std::shared_ptr<memweb::connection> con;
  std::mutex mtx;
  std::condition_variable cv;
  std::atomic_bool m_open{false};
  bool stopped{};

  template <typename H>
  websocket_client(H h) : handler{std::move(h)}
  {
  }
  ~websocket_client()
  {
    if(m_open)
      stop();
  }
  bool connected() const { return m_open; }
  void stop()
  {
    if(m_open.exchange(false))
      disconnect();
    {
      std::lock_guard l{mtx};
      stopped = true;
    }
    cv.notify_all();
  }
  void disconnect();
  void connect_and_run(const std::string& uri)
  {
    auto& n = memweb::network::instance();
    {
      std::lock_guard l{n.mtx};
      auto it = n.servers.find(std::stoi(uri.substr(uri.find_last_of(':') + 1)));
      if(it == n.servers.end())
      {
        on_fail();
        return;
      }
      con = std::make_shared<memweb::connection>();
      con->server = it->second;
      con->client = this;
      n.connections.push_back(con);
      it->second->opened(con);
      on_open();
    }
    m_open = true;
    std::unique_lock l{mtx};
    cv.wait(l, [&] { return stopped; });
  }
  void send(bool text, std::string d)
  {
    if(m_open && con && !con->closed)
      con->to_server.push_back({text, std::move(d)});
  }
  void send_message(const std::string& m) { send(true, m); }
  void send_message(const rapidjson::StringBuffer& m) { send(true, std::string(m.GetString(), m.GetSize())); }
  void send_binary_message(std::string_view m) { send(false, std::string(m)); }
};

template <typename Fun, typename Err>
class http_get_request : public std::enable_shared_from_this<http_get_request<Fun, Err>>
{
  Fun m_fun;
  Err m_err;
  std::string m_path;

public:
  http_get_request(Fun f, Err e, boost::asio::io_context&, const std::string&, const std::string& path)
      : m_fun{std::move(f)}, m_err{std::move(e)}
  {
    for(char ch : path)
      if(ch != ' ')
        m_path += ch;
      else
        m_path += "%20";
  }
  void close() { }
  void resolve(const std::string&, const std::string& port)
  {
    auto& n = memweb::network::instance();
    n.http.push_back([self = this->shared_from_this(), p = std::stoi(port)] {
      auto& n = memweb::network::instance();
      auto it = n.servers.find(p);
      if(it == n.servers.end())
      {
        self->m_err(*self);
        return;
      }
      // the connection of a request is not one of the clients
      auto con = std::make_shared<memweb::connection>();
      try
      {
        if(n.in_transit)
          n.in_transit(self->m_path);
        auto rep = it->second->handler(con, websocketpp::frame::opcode::TEXT, self->m_path);
        n.http_ok++;
        if(n.in_transit)
          n.in_transit(rep.data);
        n.http.push_back([self, d = std::move(rep.data)] { self->m_fun(*self, d); });
      }
      catch(const std::exception&)
      {
        // status which is not OK: only logged by the client
        n.http_failed++;
      }
    });
  }
};

inline void websocket_client::disconnect()
{
  if(con)
    con->close(0, "");
}
}
inline void memweb::connection::close(int, const std::string&)
{
  auto self = [this]() -> std::shared_ptr<connection> {
    auto& n = network::instance();
    std::lock_guard l{n.mtx};
    for(auto it = n.connections.begin(); it != n.connections.end(); ++it)
      if(it->get() == this)
      {
        auto r = *it;
        n.connections.erase(it);
        return r;
      }
    return {};
  }();
  if(!self || closed)
    return;
  closed = true;
  to_client.clear();
  to_server.clear();
  network::instance().http.push_back([self] {
    auto& n = network::instance();
    // seen by whichever end is still there
    for(auto& [p, s] : n.servers)
      if(s == self->server && s->closed)
        s->closed(self);
  });
}
