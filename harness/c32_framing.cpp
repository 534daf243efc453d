// C32: framed byte streams deliver exactly the messages that were written.
#include "vf.hpp"

#include <ossia/network/sockets/size_prefix_framing.hpp>
#include <ossia/network/sockets/slip_framing.hpp>
#include <ossia/network/sockets/writers.hpp>

#include <boost/asio.hpp>

#include <deque>
#include <memory>

const char* const vf::rule
    = "sequences of messages of arbitrary bytes (SLIP control bytes frequent) written "
      "through partial writes and read back in arbitrary chunks, with corrupt bytes or a "
      "receiver joining late; non-trivial: two or more messages, or a control byte";

// A stream socket held in memory: short writes and short reads follow a script.
struct pipe_end
{
  using executor_type = boost::asio::io_context::executor_type;
  boost::asio::io_context& ctx;
  std::string out;
  std::vector<std::size_t> wsizes;
  std::size_t wi{};

  std::string in;
  std::size_t pos{};
  std::vector<std::size_t> rsizes;
  std::size_t ri{};
  int reads{};
  boost::system::error_code last = boost::asio::error::eof;

  explicit pipe_end(boost::asio::io_context& c) : ctx(c) { }
  executor_type get_executor() { return ctx.get_executor(); }

  template <typename B>
  std::size_t write_some(const B& b, boost::system::error_code& ec)
  {
    ec = {};
    std::size_t lim = wsizes.empty() ? SIZE_MAX : wsizes[wi++ % wsizes.size()];
    std::size_t n = 0;
    for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it)
    {
      boost::asio::const_buffer x(*it);
      std::size_t k = std::min(lim - n, x.size());
      out.append((const char*)x.data(), k);
      n += k;
      if (n == lim)
        break;
    }
    return n;
  }
  template <typename B>
  std::size_t write_some(const B& b)
  {
    boost::system::error_code ec;
    return write_some(b, ec);
  }
  // as a listener of a server
  void write(const boost::asio::const_buffer& b) { boost::asio::write(*this, b); }

  template <typename B, typename H>
  void async_read_some(const B& b, H&& h)
  {
    std::size_t n = 0;
    boost::system::error_code ec;
    if (++reads > 200000)
      throw vf::Fail("the receiver keeps reading without making progress");
    if (pos == in.size())
      ec = last;
    else
    {
      std::size_t lim = rsizes.empty() ? SIZE_MAX : rsizes[ri++ % rsizes.size()];
      for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it)
      {
        boost::asio::mutable_buffer x(*it);
        std::size_t k = std::min({lim - n, x.size(), in.size() - pos});
        std::memcpy(x.data(), in.data() + pos, k);
        pos += k;
        n += k;
        if (n == lim)
          break;
      }
    }
    boost::asio::post(ctx, [h = std::forward<H>(h), ec, n]() mutable { h(ec, n); });
  }
};

struct owner
{
  int closed{}, failed{};
  void on_close() { closed++; }
  void on_fail() { failed++; }
};

static const unsigned char CTRL[] = {192, 219, 220, 221, 0, 255};
static std::string message(vf::Case& c)
{
  std::string s;
  const int mode = (int)c.draw(8);
  if (mode == 0)
    return s;
  const std::size_t n = mode == 7 ? c.size(900, 2600) : c.size(1, 24);
  const bool ctl = c.coin();
  if (n > 100)
  {
    const uint64_t seed = c.draw(0);
    for (std::size_t i = 0; i < n; i++)
    {
      uint64_t r = vf::mix64(seed + i);
      s.push_back((char)(ctl && (r & 3) == 0 ? CTRL[(r >> 8) % 6] : r >> 16));
    }
    return s;
  }
  for (std::size_t i = 0; i < n; i++)
    s.push_back((char)(ctl && c.coin() ? c.pick(CTRL) : (unsigned char)c.draw(256)));
  return s;
}
static std::vector<std::string> messages(vf::Case& c)
{
  std::vector<std::string> m;
  const std::size_t n = c.size(0, 6);
  for (std::size_t i = 0; i < n; i++)
    m.push_back(message(c));
  return m;
}
static std::vector<std::size_t> chunks(vf::Case& c)
{
  std::vector<std::size_t> r;
  if (c.chance(1, 4))
    return r;
  const std::size_t n = c.size(1, 5);
  for (std::size_t i = 0; i < n; i++)
    r.push_back(c.size(1, c.chance(1, 3) ? 1500 : 6));
  return r;
}
static std::string hex(const std::string& s)
{
  std::string r;
  char b[4];
  for (unsigned char x : s.substr(0, 60))
  {
    snprintf(b, 4, "%02x ", x);
    r += b;
  }
  return r + (s.size() > 60 ? "..." : "");
}
static std::string show(const std::vector<std::string>& m)
{
  std::string r;
  for (auto& s : m)
    r += "<" + hex(s) + ">";
  return r;
}
static bool control(const std::vector<std::string>& m)
{
  for (auto& s : m)
    for (unsigned char x : s)
      if (x == 192 || x == 219)
        return true;
  return false;
}

template <typename Framing>
static std::string encode(vf::Case& c, const std::vector<std::string>& m)
{
  boost::asio::io_context ctx;
  if (c.chance(1, 4))
  {
    // a server with several clients
    std::vector<std::unique_ptr<pipe_end>> s;
    const int n = 1 + (int)c.draw(3);
    for (int i = 0; i < n; i++)
    {
      s.push_back(std::make_unique<pipe_end>(ctx));
      s.back()->wsizes = chunks(c);
    }
    ossia::net::multi_socket_writer<std::unique_ptr<pipe_end>> w{s};
    for (auto& x : m)
      typename Framing::template encoder<decltype(w)>{w}.write(x.data(), x.size());
    for (auto& p : s)
      if (p->out != s[0]->out)
        VF_FAIL("two clients of one server receive different bytes");
    return s[0]->out;
  }
  pipe_end s{ctx};
  s.wsizes = chunks(c);
  for (auto& x : m)
    typename Framing::template encoder<pipe_end>{s}.write(x.data(), x.size());
  return s.out;
}
struct Got
{
  std::vector<std::string> msgs;
  int closed{}, failed{};
};
template <typename Framing>
static Got decode(vf::Case& c, const std::string& bytes, boost::system::error_code last = boost::asio::error::eof)
{
  Got g;
  boost::asio::io_context ctx;
  pipe_end s{ctx};
  s.in = bytes;
  s.rsizes = chunks(c);
  s.last = last;
  owner o;
  typename Framing::template decoder<pipe_end> dec{s};
  auto f = [&](const char* d, std::size_t n) { g.msgs.emplace_back(d, n); };
  dec.receive(ossia::net::stream_processor<owner, decltype(f)>{o, f});
  ctx.run();
  g.closed = o.closed;
  g.failed = o.failed;
  return g;
}
static std::vector<std::string> non_empty(std::vector<std::string> m)
{
  std::erase_if(m, [](auto& s) { return s.empty(); });
  return m;
}

VF_PROP(slip_bytes, 40000, 600000)
{
  auto m = messages(c);
  c.nontrivial(m.size() > 1 || control(m));
  std::string want;
  for (auto& s : m)
  {
    want += (char)192;
    for (char x : s)
    {
      if ((unsigned char)x == 192)
        want += "\xdb\xdc";
      else if ((unsigned char)x == 219)
        want += "\xdb\xdd";
      else
        want += x;
    }
    want += (char)192;
  }
  const auto got = encode<ossia::net::slip_framing>(c, m);
  if (got != want)
    VF_FAIL("SLIP encoding of " << show(m) << " is " << hex(got));
}

VF_PROP(slip_round_trip, 40000, 600000)
{
  auto m = messages(c);
  c.nontrivial(m.size() > 1 || control(m));
  const auto bytes = encode<ossia::net::slip_framing>(c, m);
  auto g = decode<ossia::net::slip_framing>(c, bytes);
  VF_NOTE("sent " << show(m) << " received " << show(g.msgs));
  if (g.msgs != non_empty(m))
    VF_FAIL("sent " << show(m) << ", received " << show(g.msgs));
  if (g.closed != 1 || g.failed)
    VF_FAIL("end of stream: on_close called " << g.closed << " times, on_fail " << g.failed);
}

// A damaged or partial frame does not take the following ones with it
VF_PROP(slip_resync, 40000, 600000)
{
  auto m = non_empty(messages(c));
  std::string junk;
  const int kind = (int)c.draw(3);
  if (kind == 0) // joined in the middle of a frame
  {
    auto f = encode<ossia::net::slip_framing>(c, {message(c)});
    junk = f.substr(c.draw(f.size()));
  }
  else if (kind == 1) // a frame with an invalid escape
  {
    std::string a, b;
    for (int i = 0, n = (int)c.draw(4); i < n; i++)
      a += (char)('a' + c.draw(26)), b += (char)('A' + c.draw(26));
    junk = "\xc0" + a + "\xdb" + (char)('a' + c.draw(20)) + b + "\xc0";
  }
  else // noise without frame delimiters, before the first frame
  {
    for (int i = 0, n = (int)c.draw(8); i < n; i++)
      junk += (char)c.draw(190);
  }
  c.nontrivial(!m.empty() && !junk.empty());
  const auto bytes = junk + encode<ossia::net::slip_framing>(c, m);
  auto g = decode<ossia::net::slip_framing>(c, bytes);
  VF_NOTE("junk " << hex(junk) << " then " << show(m) << " received " << show(g.msgs));
  // at most one spurious message before the real ones
  if (g.msgs.size() < m.size() || g.msgs.size() > m.size() + 1
      || !std::equal(m.rbegin(), m.rend(), g.msgs.rbegin()))
    VF_FAIL("after the damaged bytes " << hex(junk) << " the messages " << show(m)
                                       << " arrive as " << show(g.msgs));
}

// Arbitrary bytes: no crash, no empty message, nothing longer than the input
VF_PROP(slip_arbitrary, 40000, 600000)
{
  std::string s;
  const std::size_t n = c.size(0, 60);
  for (std::size_t i = 0; i < n; i++)
    s.push_back((char)(c.coin() ? c.pick(CTRL) : (unsigned char)c.draw(256)));
  // reference decoder
  std::vector<std::string> want;
  auto g = decode<ossia::net::slip_framing>(c, s);
  std::size_t tot = 0;
  c.nontrivial(!g.msgs.empty());
  for (auto& m : g.msgs)
  {
    if (m.empty())
      VF_FAIL("an empty message is delivered for " << hex(s));
    tot += m.size();
    // every message is the decoding of a stretch of the input between delimiters
    std::string enc = "\xc0";
    for (char x : m)
      if ((unsigned char)x == 192)
        enc += "\xdb\xdc";
      else if ((unsigned char)x == 219)
        enc += "\xdb\xdd";
      else
        enc += x;
    enc += "\xc0";
    if (s.find(enc) == std::string::npos)
      VF_FAIL("a message " << hex(m) << " is delivered that is not in " << hex(s));
  }
  if (tot > s.size())
    VF_FAIL("more bytes delivered than received");
}

VF_PROP(size_prefix_bytes, 30000, 400000)
{
  auto m = messages(c);
  c.nontrivial(m.size() > 1);
  std::string want;
  for (auto& s : m)
  {
    for (int i = 24; i >= 0; i -= 8)
      want += (char)((s.size() >> i) & 255);
    want += s;
  }
  const auto got = encode<ossia::net::size_prefix_framing>(c, m);
  if (got != want)
    VF_FAIL("size-prefixed form of " << show(m) << " is " << hex(got));
}

VF_PROP(size_prefix_round_trip, 30000, 400000)
{
  auto m = messages(c);
  c.nontrivial(m.size() > 1);
  std::string bytes = encode<ossia::net::size_prefix_framing>(c, m);
  const bool cut = c.chance(1, 4) && !bytes.empty();
  std::size_t whole = m.size();
  if (cut)
  {
    bytes.resize(c.draw(bytes.size()));
    whole = 0;
    std::size_t at = 0;
    while (whole < m.size() && at + 4 + m[whole].size() <= bytes.size())
      at += 4 + m[whole].size(), whole++;
  }
  auto g = decode<ossia::net::size_prefix_framing>(c, bytes);
  VF_NOTE("sent " << show(m) << " received " << show(g.msgs));
  auto want = non_empty({m.begin(), m.begin() + whole});
  if (g.msgs != want)
    VF_FAIL("sent " << show(m) << (cut ? " (stream cut)" : "") << ", received " << show(g.msgs));
  if (g.closed != 1 || g.failed)
    VF_FAIL("end of stream: on_close called " << g.closed << " times, on_fail " << g.failed);
}

// Cancelling a read reports a failure once and stops reading
VF_PROP(cancelled, 10000, 100000)
{
  auto m = non_empty(messages(c));
  const bool slip = c.coin();
  c.nontrivial(!m.empty());
  Got g = slip ? decode<ossia::net::slip_framing>(
              c, encode<ossia::net::slip_framing>(c, m), boost::asio::error::operation_aborted)
               : decode<ossia::net::size_prefix_framing>(
                   c, encode<ossia::net::size_prefix_framing>(c, m), boost::asio::error::operation_aborted);
  if (g.msgs != m || g.failed != 1 || g.closed)
    VF_FAIL("cancelled stream: " << g.msgs.size() << " of " << m.size() << " messages, on_fail "
                                 << g.failed << ", on_close " << g.closed);
}
