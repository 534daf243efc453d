// Stand-in for the jcelerier/oscpack submodule (namespace oscpack): the part
// of its interface that libossia uses. Reading is bounds-checked and throws
// on malformed packets, as oscpack does.
#pragma once
#include <cstdint>
#include <cstring>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace oscpack
{
using int32 = int32_t;
using uint32 = uint32_t;
using int64 = int64_t;
using uint64 = uint64_t;
using osc_bundle_element_size_t = int32_t;

enum TypeTagValues : char
{
  TRUE_TYPE_TAG = 'T',
  FALSE_TYPE_TAG = 'F',
  NIL_TYPE_TAG = 'N',
  INFINITUM_TYPE_TAG = 'I',
  INT32_TYPE_TAG = 'i',
  FLOAT_TYPE_TAG = 'f',
  CHAR_TYPE_TAG = 'c',
  RGBA_COLOR_TYPE_TAG = 'r',
  MIDI_MESSAGE_TYPE_TAG = 'm',
  INT64_TYPE_TAG = 'h',
  TIME_TAG_TYPE_TAG = 't',
  DOUBLE_TYPE_TAG = 'd',
  STRING_TYPE_TAG = 's',
  SYMBOL_TYPE_TAG = 'S',
  BLOB_TYPE_TAG = 'b',
  ARRAY_BEGIN_TYPE_TAG = '[',
  ARRAY_END_TYPE_TAG = ']'
};

class Exception : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
#define OSCPACK_EXC(N, M)                  \
  class N : public Exception               \
  {                                        \
  public:                                  \
    N(const char* w = M) : Exception(w) {} \
  };
OSCPACK_EXC(OutOfBufferMemoryException, "out of buffer memory")
OSCPACK_EXC(BundleNotInProgressException, "bundle not in progress")
OSCPACK_EXC(MessageInProgressException, "message in progress")
OSCPACK_EXC(MessageNotInProgressException, "message not in progress")
OSCPACK_EXC(MalformedPacketException, "malformed packet")
OSCPACK_EXC(MalformedMessageException, "malformed message")
OSCPACK_EXC(MalformedBundleException, "malformed bundle")
OSCPACK_EXC(WrongArgumentTypeException, "wrong argument type")
OSCPACK_EXC(MissingArgumentException, "missing argument")
OSCPACK_EXC(ExcessArgumentException, "too many arguments")
#undef OSCPACK_EXC

constexpr std::size_t RoundUp4(std::size_t x) noexcept
{
  return (x + 3) & ~std::size_t(3);
}

struct BeginBundle
{
  explicit constexpr BeginBundle(uint64 t = 1) : timeTag(t) {}
  uint64 timeTag;
};
struct BeginBundleImmediate : BeginBundle
{
  constexpr BeginBundleImmediate() : BeginBundle(1) {}
};
struct EndBundle
{
};
struct BeginMessageN
{
  explicit BeginMessageN(std::string_view s) : addressPattern(s) {}
  std::string_view addressPattern;
};
using BeginMessage = BeginMessageN;
struct EndMessage
{
};
struct Nil
{
};
struct Infinitum
{
};
struct BeginArray
{
};
struct EndArray
{
};
struct RgbaColor
{
  constexpr RgbaColor() : value(0) {}
  explicit constexpr RgbaColor(uint32 v) : value(v) {}
  uint32 value;
};
struct MidiMessage
{
  explicit constexpr MidiMessage(uint32 v) : value(v) {}
  uint32 value;
};
struct TimeTag
{
  explicit constexpr TimeTag(uint64 v) : value(v) {}
  uint64 value;
};
struct Symbol
{
  explicit Symbol(std::string_view v) : value(v) {}
  std::string_view value;
};
struct Blob
{
  Blob() : data(nullptr), size(0) {}
  Blob(const void* d, std::size_t s) : data(d), size((osc_bundle_element_size_t)s) {}
  const void* data;
  osc_bundle_element_size_t size;
};

class OutboundPacketStream
{
  char* data_;
  std::size_t capacity_;
  std::size_t size_ = 0;
  bool in_message_ = false;
  std::vector<std::size_t> bundles_; // positions of size slots; npos: outermost
  std::size_t message_slot_ = npos;
  std::string addr_, tags_, args_;
  static constexpr std::size_t npos = std::size_t(-1);

  void need(std::size_t n)
  {
    if (size_ + n > capacity_)
      throw OutOfBufferMemoryException{};
  }
  void raw(const char* p, std::size_t n)
  {
    need(n);
    if (n)
      std::memcpy(data_ + size_, p, n);
    size_ += n;
  }
  static void be32(std::string& s, uint32 v)
  {
    char b[4] = {char(v >> 24), char(v >> 16), char(v >> 8), char(v)};
    s.append(b, 4);
  }
  static void be64(std::string& s, uint64 v)
  {
    be32(s, uint32(v >> 32));
    be32(s, uint32(v));
  }
  void poke32(std::size_t pos, uint32 v)
  {
    char b[4] = {char(v >> 24), char(v >> 16), char(v >> 8), char(v)};
    std::memcpy(data_ + pos, b, 4);
  }
  static std::size_t padded(std::size_t n) { return RoundUp4(n + 1); }
  static void add_padded(std::string& s, std::string_view v)
  {
    s.append(v.data(), v.size());
    const auto tot = padded(v.size());
    s.append(tot - v.size(), '\0');
  }
  void check_args()
  {
    if (!in_message_)
      throw MessageNotInProgressException{};
    need(padded(addr_.size()) + padded(1 + tags_.size()) + args_.size());
  }
  void tag(char c)
  {
    tags_ += c;
    check_args();
  }

public:
  OutboundPacketStream(char* buffer, std::size_t capacity)
      : data_(buffer), capacity_(capacity)
  {
  }
  void Clear()
  {
    size_ = 0;
    in_message_ = false;
    bundles_.clear();
  }
  std::size_t Capacity() const { return capacity_; }
  std::size_t Size() const
  {
    return size_
           + (in_message_ ? padded(addr_.size()) + padded(1 + tags_.size())
                                + args_.size()
                          : 0);
  }
  const char* Data() const { return data_; }
  bool IsReady() const { return !in_message_ && bundles_.empty(); }
  bool IsMessageInProgress() const { return in_message_; }
  bool IsBundleInProgress() const { return !bundles_.empty(); }

  OutboundPacketStream& operator<<(const BeginBundle& b)
  {
    if (in_message_)
      throw MessageInProgressException{};
    std::size_t slot = npos;
    if (!bundles_.empty())
    {
      slot = size_;
      raw("\0\0\0\0", 4);
    }
    std::string h("#bundle\0", 8);
    be64(h, b.timeTag);
    raw(h.data(), h.size());
    bundles_.push_back(slot);
    return *this;
  }
  OutboundPacketStream& operator<<(const EndBundle&)
  {
    if (bundles_.empty())
      throw BundleNotInProgressException{};
    if (in_message_)
      throw MessageInProgressException{};
    auto s = bundles_.back();
    bundles_.pop_back();
    if (s != npos)
      poke32(s, uint32(size_ - s - 4));
    return *this;
  }
  OutboundPacketStream& operator<<(const BeginMessageN& m)
  {
    if (in_message_)
      throw MessageInProgressException{};
    message_slot_ = npos;
    if (!bundles_.empty())
    {
      message_slot_ = size_;
      raw("\0\0\0\0", 4);
    }
    addr_ = std::string(m.addressPattern);
    tags_.clear();
    args_.clear();
    in_message_ = true;
    check_args();
    return *this;
  }
  OutboundPacketStream& operator<<(const EndMessage&)
  {
    if (!in_message_)
      throw MessageNotInProgressException{};
    std::string out;
    add_padded(out, addr_);
    add_padded(out, "," + tags_);
    out += args_;
    in_message_ = false;
    raw(out.data(), out.size());
    if (message_slot_ != npos)
      poke32(message_slot_, uint32(size_ - message_slot_ - 4));
    return *this;
  }
  OutboundPacketStream& operator<<(bool b)
  {
    tag(b ? TRUE_TYPE_TAG : FALSE_TYPE_TAG);
    return *this;
  }
  OutboundPacketStream& operator<<(const Nil&) { tag('N'); return *this; }
  OutboundPacketStream& operator<<(const Infinitum&) { tag('I'); return *this; }
  OutboundPacketStream& operator<<(const BeginArray&) { tag('['); return *this; }
  OutboundPacketStream& operator<<(const EndArray&) { tag(']'); return *this; }
  OutboundPacketStream& operator<<(int32 v)
  {
    be32(args_, (uint32)v);
    tag('i');
    return *this;
  }
  OutboundPacketStream& operator<<(float v)
  {
    uint32 u;
    std::memcpy(&u, &v, 4);
    be32(args_, u);
    tag('f');
    return *this;
  }
  OutboundPacketStream& operator<<(char v)
  {
    be32(args_, (uint32)(int32)v);
    tag('c');
    return *this;
  }
  OutboundPacketStream& operator<<(const RgbaColor& v)
  {
    be32(args_, v.value);
    tag('r');
    return *this;
  }
  OutboundPacketStream& operator<<(const MidiMessage& v)
  {
    be32(args_, v.value);
    tag('m');
    return *this;
  }
  OutboundPacketStream& operator<<(int64 v)
  {
    be64(args_, (uint64)v);
    tag('h');
    return *this;
  }
  OutboundPacketStream& operator<<(const TimeTag& v)
  {
    be64(args_, v.value);
    tag('t');
    return *this;
  }
  OutboundPacketStream& operator<<(double v)
  {
    uint64 u;
    std::memcpy(&u, &v, 8);
    be64(args_, u);
    tag('d');
    return *this;
  }
  OutboundPacketStream& operator<<(std::string_view v)
  {
    add_padded(args_, v);
    tag('s');
    return *this;
  }
  OutboundPacketStream& operator<<(const char* v)
  {
    return *this << std::string_view(v);
  }
  OutboundPacketStream& operator<<(const std::string& v)
  {
    return *this << std::string_view(v);
  }
  OutboundPacketStream& operator<<(const Symbol& v)
  {
    add_padded(args_, v.value);
    tag('S');
    return *this;
  }
  OutboundPacketStream& operator<<(const Blob& v)
  {
    be32(args_, (uint32)v.size);
    args_.append((const char*)v.data, v.size);
    args_.append(RoundUp4(v.size) - v.size, '\0');
    tag('b');
    return *this;
  }
};

namespace detail
{
inline uint32 rd32(const char* p)
{
  const auto* u = (const unsigned char*)p;
  return (uint32(u[0]) << 24) | (uint32(u[1]) << 16) | (uint32(u[2]) << 8) | u[3];
}
inline uint64 rd64(const char* p)
{
  return (uint64(rd32(p)) << 32) | rd32(p + 4);
}
// Returns the end of a padded string starting at p, or nullptr
inline const char* str_end(const char* p, const char* end)
{
  const char* q = p;
  while (q < end && *q)
    ++q;
  if (q >= end)
    return nullptr;
  const char* r = p + RoundUp4(std::size_t(q - p) + 1);
  return r <= end ? r : nullptr;
}
}

class ReceivedPacket
{
public:
  ReceivedPacket(const char* c, std::size_t s) : contents_(c), size_((int32)s)
  {
    if (s > 0x7FFFFFFC)
      throw MalformedPacketException("invalid packet size");
    if (s == 0)
      throw MalformedPacketException("zero length elements not permitted");
    if (s % 4)
      throw MalformedPacketException("element size must be multiple of four");
  }
  bool IsMessage() const { return !IsBundle(); }
  bool IsBundle() const { return size_ > 0 && contents_[0] == '#'; }
  osc_bundle_element_size_t Size() const { return size_; }
  const char* Contents() const { return contents_; }

private:
  const char* contents_;
  osc_bundle_element_size_t size_;
};

class ReceivedBundleElement
{
public:
  explicit ReceivedBundleElement(const char* p) : sizePtr_(p) {}
  bool IsMessage() const { return !IsBundle(); }
  bool IsBundle() const { return Size() > 0 && Contents()[0] == '#'; }
  osc_bundle_element_size_t Size() const { return (int32)detail::rd32(sizePtr_); }
  const char* Contents() const { return sizePtr_ + 4; }
  friend class ReceivedBundleElementIterator;

private:
  const char* sizePtr_;
};
class ReceivedBundleElementIterator
{
public:
  explicit ReceivedBundleElementIterator(const char* p) : value_(p) {}
  ReceivedBundleElementIterator& operator++()
  {
    value_.sizePtr_ = value_.Contents() + value_.Size();
    return *this;
  }
  ReceivedBundleElementIterator operator++(int)
  {
    auto o = *this;
    ++*this;
    return o;
  }
  const ReceivedBundleElement& operator*() const { return value_; }
  const ReceivedBundleElement* operator->() const { return &value_; }
  bool operator==(const ReceivedBundleElementIterator& o) const
  {
    return value_.sizePtr_ == o.value_.sizePtr_;
  }

private:
  ReceivedBundleElement value_;
};

class ReceivedMessageArgument
{
public:
  ReceivedMessageArgument(const char* t, const char* a) : tag_(t), arg_(a) {}
  friend class ReceivedMessageArgumentIterator;
  char TypeTag() const { return *tag_; }
  template <char T>
  void chk() const
  {
    if (*tag_ != T)
      throw WrongArgumentTypeException{};
  }
  bool IsBool() const { return *tag_ == 'T' || *tag_ == 'F'; }
  bool AsBool() const
  {
    if (!IsBool())
      throw WrongArgumentTypeException{};
    return *tag_ == 'T';
  }
  bool AsBoolUnchecked() const { return *tag_ == 'T'; }
  bool IsNil() const { return *tag_ == 'N'; }
  bool IsInfinitum() const { return *tag_ == 'I'; }
  bool IsInt32() const { return *tag_ == 'i'; }
  int32 AsInt32() const { chk<'i'>(); return AsInt32Unchecked(); }
  int32 AsInt32Unchecked() const { return (int32)detail::rd32(arg_); }
  bool IsFloat() const { return *tag_ == 'f'; }
  float AsFloat() const { chk<'f'>(); return AsFloatUnchecked(); }
  float AsFloatUnchecked() const
  {
    uint32 u = detail::rd32(arg_);
    float f;
    std::memcpy(&f, &u, 4);
    return f;
  }
  bool IsChar() const { return *tag_ == 'c'; }
  char AsChar() const { chk<'c'>(); return AsCharUnchecked(); }
  char AsCharUnchecked() const { return (char)detail::rd32(arg_); }
  bool IsRgbaColor() const { return *tag_ == 'r'; }
  uint32 AsRgbaColor() const { chk<'r'>(); return AsRgbaColorUnchecked(); }
  uint32 AsRgbaColorUnchecked() const { return detail::rd32(arg_); }
  bool IsMidiMessage() const { return *tag_ == 'm'; }
  uint32 AsMidiMessage() const { chk<'m'>(); return AsMidiMessageUnchecked(); }
  uint32 AsMidiMessageUnchecked() const { return detail::rd32(arg_); }
  bool IsInt64() const { return *tag_ == 'h'; }
  int64 AsInt64() const { chk<'h'>(); return AsInt64Unchecked(); }
  int64 AsInt64Unchecked() const { return (int64)detail::rd64(arg_); }
  bool IsTimeTag() const { return *tag_ == 't'; }
  uint64 AsTimeTag() const { chk<'t'>(); return AsTimeTagUnchecked(); }
  uint64 AsTimeTagUnchecked() const { return detail::rd64(arg_); }
  bool IsDouble() const { return *tag_ == 'd'; }
  double AsDouble() const { chk<'d'>(); return AsDoubleUnchecked(); }
  double AsDoubleUnchecked() const
  {
    uint64 u = detail::rd64(arg_);
    double f;
    std::memcpy(&f, &u, 8);
    return f;
  }
  bool IsString() const { return *tag_ == 's'; }
  const char* AsString() const { chk<'s'>(); return arg_; }
  const char* AsStringUnchecked() const { return arg_; }
  bool IsSymbol() const { return *tag_ == 'S'; }
  const char* AsSymbol() const { chk<'S'>(); return arg_; }
  const char* AsSymbolUnchecked() const { return arg_; }
  bool IsBlob() const { return *tag_ == 'b'; }
  void AsBlob(const void*& d, osc_bundle_element_size_t& s) const
  {
    chk<'b'>();
    AsBlobUnchecked(d, s);
  }
  void AsBlobUnchecked(const void*& d, osc_bundle_element_size_t& s) const
  {
    s = (int32)detail::rd32(arg_);
    d = arg_ + 4;
  }
  bool IsArrayBegin() const { return *tag_ == '['; }
  bool IsArrayEnd() const { return *tag_ == ']'; }

private:
  const char* tag_;
  const char* arg_;
};

class ReceivedMessageArgumentIterator
{
public:
  ReceivedMessageArgumentIterator(const char* t, const char* a) : value_(t, a) {}
  ReceivedMessageArgumentIterator& operator++()
  {
    switch (*value_.tag_)
    {
      case 'i':
      case 'f':
      case 'c':
      case 'r':
      case 'm':
        value_.arg_ += 4;
        break;
      case 'h':
      case 't':
      case 'd':
        value_.arg_ += 8;
        break;
      case 's':
      case 'S':
        value_.arg_ += RoundUp4(std::strlen(value_.arg_) + 1);
        break;
      case 'b':
        value_.arg_ += 4 + RoundUp4(detail::rd32(value_.arg_));
        break;
      case '\0':
        return *this;
      default:
        break;
    }
    ++value_.tag_;
    return *this;
  }
  ReceivedMessageArgumentIterator operator++(int)
  {
    auto o = *this;
    ++*this;
    return o;
  }
  const ReceivedMessageArgument& operator*() const { return value_; }
  const ReceivedMessageArgument* operator->() const { return &value_; }
  bool operator==(const ReceivedMessageArgumentIterator& o) const
  {
    return value_.tag_ == o.value_.tag_;
  }
  bool operator!=(const ReceivedMessageArgumentIterator& o) const
  {
    return !(*this == o);
  }

private:
  ReceivedMessageArgument value_;
};

class ReceivedMessage
{
public:
  using const_iterator = ReceivedMessageArgumentIterator;
  explicit ReceivedMessage(const ReceivedPacket& p) { Init(p.Contents(), p.Size()); }
  explicit ReceivedMessage(const ReceivedBundleElement& e)
  {
    Init(e.Contents(), e.Size());
  }
  const char* AddressPattern() const { return addr_; }
  uint32 ArgumentCount() const { return (uint32)(tagsEnd_ - tags_); }
  const char* TypeTags() const { return tags_; }
  ReceivedMessageArgumentIterator ArgumentsBegin() const { return {tags_, args_}; }
  ReceivedMessageArgumentIterator ArgumentsEnd() const { return {tagsEnd_, nullptr}; }

private:
  void Init(const char* m, osc_bundle_element_size_t size)
  {
    static const char empty[1] = {0};
    if (size <= 0)
      throw MalformedMessageException("zero length messages not permitted");
    if (size % 4)
      throw MalformedMessageException("message size must be multiple of four");
    const char* end = m + size;
    addr_ = m;
    const char* t = detail::str_end(m, end);
    if (!t)
      throw MalformedMessageException("unterminated address pattern");
    if (t == end)
    {
      tags_ = tagsEnd_ = empty;
      args_ = nullptr;
      return;
    }
    if (*t != ',')
      throw MalformedMessageException("type tags not present");
    if (t[1] == '\0')
    {
      tags_ = tagsEnd_ = empty;
      args_ = nullptr;
      return;
    }
    args_ = detail::str_end(t, end);
    if (!args_)
      throw MalformedMessageException("type tags were not terminated");
    tags_ = t + 1;
    const char* a = args_;
    const char* q = tags_;
    int level = 0;
    auto need = [&](std::size_t n) {
      if (std::size_t(end - a) < n)
        throw MalformedMessageException("arguments exceed message size");
      a += n;
    };
    for (; *q; ++q)
    {
      switch (*q)
      {
        case 'T':
        case 'F':
        case 'N':
        case 'I':
          break;
        case '[':
          ++level;
          break;
        case ']':
          --level;
          break;
        case 'i':
        case 'f':
        case 'c':
        case 'r':
        case 'm':
          need(4);
          break;
        case 'h':
        case 't':
        case 'd':
          need(8);
          break;
        case 's':
        case 'S':
        {
          const char* e = detail::str_end(a, end);
          if (!e)
            throw MalformedMessageException("unterminated string argument");
          a = e;
          break;
        }
        case 'b':
        {
          if (end - a < 4)
            throw MalformedMessageException("arguments exceed message size");
          const uint32 n = detail::rd32(a);
          a += 4;
          if (n > 0x7FFFFFFCu)
            throw MalformedMessageException("invalid blob size");
          need(RoundUp4(n));
          break;
        }
        default:
          throw MalformedMessageException("unknown type tag");
      }
    }
    if (level != 0)
      throw MalformedMessageException("mismatched array markers");
    tagsEnd_ = q;
  }
  const char *addr_{}, *tags_{}, *tagsEnd_{}, *args_{};
};

class ReceivedBundle
{
public:
  explicit ReceivedBundle(const ReceivedPacket& p) { Init(p.Contents(), p.Size()); }
  explicit ReceivedBundle(const ReceivedBundleElement& e)
  {
    Init(e.Contents(), e.Size());
  }
  uint64 TimeTag() const { return detail::rd64(timeTag_); }
  uint32 ElementCount() const { return count_; }
  using const_iterator = ReceivedBundleElementIterator;
  ReceivedBundleElementIterator ElementsBegin() const
  {
    return ReceivedBundleElementIterator(timeTag_ + 8);
  }
  ReceivedBundleElementIterator ElementsEnd() const
  {
    return ReceivedBundleElementIterator(end_);
  }

private:
  void Init(const char* b, osc_bundle_element_size_t size)
  {
    if (size < 16)
      throw MalformedBundleException("packet too short for bundle");
    if (size % 4)
      throw MalformedBundleException("bundle size must be multiple of four");
    if (std::memcmp(b, "#bundle\0", 8) != 0)
      throw MalformedBundleException("bad bundle address pattern");
    end_ = b + size;
    timeTag_ = b + 8;
    const char* p = timeTag_ + 8;
    while (p < end_)
    {
      if (end_ - p < 4)
        throw MalformedBundleException("packet too short for elementSize");
      const uint32 n = detail::rd32(p);
      if (n % 4)
        throw MalformedBundleException("element size must be multiple of four");
      p += 4;
      if (std::size_t(end_ - p) < n)
        throw MalformedBundleException("packet too short for bundle element");
      p += n;
      ++count_;
    }
  }
  const char *timeTag_{}, *end_{};
  uint32 count_ = 0;
};

inline std::ostream& operator<<(std::ostream& o, const ReceivedMessage& m)
{
  return o << '[' << m.AddressPattern() << ' ' << m.TypeTags() << ']';
}
inline void debug(std::ostream& o, const ReceivedMessage& m) { o << m; }
}
