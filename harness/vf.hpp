// Property-based testing engine used by every check.
//
// A property is a function of a `Case`.  Everything random is drawn from the
// case's choice sequence, so a failing case is (a) reproducible from the
// sequence alone, (b) shrunk by editing the sequence (delete / zero / lower
// choices) and re-running the property, whatever it generates: values, texts,
// trees, operation histories or thread schedules.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vf
{
struct Fail : std::exception
{
  std::string msg;
  explicit Fail(std::string m) : msg(std::move(m)) { }
  const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard
{
};

inline uint64_t mix64(uint64_t x)
{
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

class Case
{
public:
  // ---- source of choices -------------------------------------------------
  explicit Case(uint64_t seed) : m_state(seed) { }
  explicit Case(std::vector<uint64_t> replay)
      : m_replay(std::move(replay)), m_isReplay(true)
  {
  }

  // uniform in [0, n) (n == 0: 64 bits)
  uint64_t draw(uint64_t n)
  {
    uint64_t v;
    if (m_isReplay)
    {
      v = m_pos < m_replay.size() ? m_replay[m_pos] : 0;
      m_pos++;
      if (n && v >= n)
        v = v % n;
    }
    else
    {
      m_state += 0x9E3779B97F4A7C15ull;
      v = mix64(m_state);
      if (n)
        v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    m_choices.push_back(v);
    if (sink && m_choices.size() < sink_cap)
    {
      // seen by the parent whatever happens to this process
      sink[m_choices.size()] = v;
      sink[0] = m_choices.size();
    }
    if (m_choices.size() > 4000000)
      throw Discard{};
    return v;
  }

  // ---- generators --------------------------------------------------------
  bool coin() { return draw(2) == 1; }
  // true with probability num/den; shrinks towards false
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }

  // integer in [lo, hi], shrinking towards 0 (or the bound nearest to it)
  int64_t range(int64_t lo, int64_t hi)
  {
    if (lo >= hi)
      return lo;
    const uint64_t n = (uint64_t)hi - (uint64_t)lo + 1;
    uint64_t k = draw(n);
    if (lo >= 0)
      return (int64_t)((uint64_t)lo + k);
    if (hi <= 0)
      return (int64_t)((uint64_t)hi - k);
    // 0, 1, -1, 2, -2, ... then whatever side is left
    const uint64_t pos = (uint64_t)hi, neg = (uint64_t)0 - (uint64_t)lo;
    const uint64_t m = pos < neg ? pos : neg;
    if (k == 0)
      return 0;
    if (k <= 2 * m)
      return (k & 1) ? (int64_t)((k + 1) / 2) : -(int64_t)(k / 2);
    const uint64_t r = k - m;
    return pos > neg ? (int64_t)r : (int64_t)((uint64_t)0 - r);
  }
  std::size_t size(std::size_t lo, std::size_t hi)
  {
    return (std::size_t)range((int64_t)lo, (int64_t)hi);
  }
  template <typename V>
  auto& pick(V& v)
  {
    return v[draw(std::size(v))];
  }
  template <typename T>
  T pick(std::initializer_list<T> v)
  {
    return *(v.begin() + draw(v.size()));
  }
  // index chosen with the given weights
  std::size_t weighted(std::initializer_list<unsigned> w)
  {
    unsigned tot = 0;
    for (auto x : w)
      tot += x;
    uint64_t k = draw(tot);
    std::size_t i = 0;
    for (auto x : w)
    {
      if (k < x)
        return i;
      k -= x;
      i++;
    }
    return 0;
  }

  int32_t i32()
  {
    switch (draw(8))
    {
      case 0:
      case 1:
      case 2:
        return (int32_t)range(-16, 16);
      case 3:
      case 4:
        return (int32_t)range(-2000, 2000);
      case 5:
        return (int32_t)range(
            std::numeric_limits<int32_t>::min(),
            std::numeric_limits<int32_t>::max());
      case 6:
        return pick<int32_t>(
            {0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777216,
             16777217, -128, -32768, 1000000});
      default:
        return pick<int32_t>(
            {std::numeric_limits<int32_t>::max(),
             std::numeric_limits<int32_t>::min(),
             std::numeric_limits<int32_t>::max() - 1,
             std::numeric_limits<int32_t>::min() + 1});
    }
  }
  int64_t i64()
  {
    switch (draw(6))
    {
      case 0:
      case 1:
        return range(-16, 16);
      case 2:
        return range(-2000000, 2000000);
      case 3:
        return (int64_t)draw(0);
      case 4:
        return (int64_t)1 << draw(63);
      default:
        return pick<int64_t>(
            {std::numeric_limits<int64_t>::max(),
             std::numeric_limits<int64_t>::min(),
             std::numeric_limits<int64_t>::max() - 1, (int64_t)1 << 53,
             ((int64_t)1 << 53) + 1, -1, (int64_t)1 << 31, (int64_t)1 << 32});
    }
  }
  // finite floats of moderate magnitude
  float f32()
  {
    switch (draw(7))
    {
      case 0:
      case 1:
        return (float)range(-20, 20);
      case 2:
        return (float)range(-160, 160) / 8.f;
      case 3:
        return (float)range(0, 1 << 20) / (float)(1 << 20);
      case 4:
        return (float)range(-(1 << 22), 1 << 22) / 1024.f;
      case 5:
        return (float)range(-2000000000, 2000000000);
      default:
        return pick<float>({0.f, 1.f, -1.f, 0.5f, 0.1f, 1.f / 3.f, 3.1415927f, 100.f,
                            -0.25f, 0.001f, 1e-6f});
    }
  }
  // any finite float
  float f32_any()
  {
    if (draw(4) < 3)
      return f32();
    for (int i = 0; i < 8; i++)
    {
      uint32_t b = (uint32_t)draw(1ull << 32);
      float f;
      std::memcpy(&f, &b, 4);
      if (std::isfinite(f))
        return f;
    }
    return 0.f;
  }
  double f64()
  {
    switch (draw(5))
    {
      case 0:
      case 1:
        return (double)range(-20, 20);
      case 2:
        return (double)range(0, 1 << 24) / (double)(1 << 24);
      case 3:
        return (double)range(-(1ll << 40), 1ll << 40) / 4096.;
      default:
        return (double)f32();
    }
  }
  double unit_interval()
  {
    switch (draw(4))
    {
      case 0:
        return (double)range(0, 8) / 8.;
      default:
        return (double)range(0, 1ll << 30) / (double)(1ll << 30);
    }
  }
  std::string str(std::size_t maxlen, const char* alphabet = "abc/ _-.:*?{}[],!019AZ")
  {
    const std::size_t n = std::strlen(alphabet);
    std::string s;
    while (s.size() < maxlen && draw(8) != 0)
      s.push_back(alphabet[draw(n)]);
    return s;
  }
  std::string bytes(std::size_t maxlen)
  {
    std::string s;
    const std::size_t n = size(0, maxlen);
    for (std::size_t i = 0; i < n; i++)
      s.push_back((char)draw(256));
    return s;
  }
  // Repeats: while (c.more(i, max)) ...  average about `avg`
  bool more(std::size_t i, std::size_t max, unsigned avg = 8)
  {
    return i < max && draw(avg + 1) != 0;
  }

  // ---- bookkeeping -------------------------------------------------------
  void nontrivial(bool b = true) { m_nontrivial |= b; }
  void label(const char* l) { m_labels.insert(l); }
  void label(bool b, const char* l)
  {
    if (b)
      m_labels.insert(l);
  }
  // several checked sub-evaluations within this case
  void excluded(const char* why) { m_excluded.insert(why); }
  bool verbose{};
  uint64_t* sink{};
  std::size_t sink_cap{};
  std::ostringstream log;

  const std::vector<uint64_t>& choices() const { return m_choices; }
  bool m_nontrivial{};
  std::set<std::string> m_labels;
  std::set<std::string> m_excluded;

private:
  uint64_t m_state{};
  std::vector<uint64_t> m_replay;
  std::size_t m_pos{};
  bool m_isReplay{};
  std::vector<uint64_t> m_choices;
};

struct Prop
{
  const char* name;
  uint64_t quick;
  uint64_t thorough;
  void (*fn)(Case&);
  // Number of attempts to reproduce a failure (schedules are not replayable)
  int repro_attempts;
};
struct Known
{
  const char* id;
  const char* what;
  void (*fn)();
};

std::vector<Prop>& props();
std::vector<Known>& knowns();
struct Reg
{
  Reg(Prop p) { props().push_back(p); }
  Reg(Known k) { knowns().push_back(k); }
};

// set by each harness: the rule that makes a case non-trivial
extern const char* const rule;

int main_(int argc, char** argv);
}

#define VF_PROP(NAME, QUICK, THOROUGH)                                       \
  static void vf_prop_##NAME(vf::Case& c);                                   \
  static vf::Reg vf_reg_##NAME{                                              \
      vf::Prop{#NAME, QUICK, THOROUGH, &vf_prop_##NAME, 1}};                 \
  static void vf_prop_##NAME(vf::Case& c)

// For properties over real thread schedules
#define VF_PROP_SCHED(NAME, QUICK, THOROUGH, ATTEMPTS)                       \
  static void vf_prop_##NAME(vf::Case& c);                                   \
  static vf::Reg vf_reg_##NAME{                                              \
      vf::Prop{#NAME, QUICK, THOROUGH, &vf_prop_##NAME, ATTEMPTS}};          \
  static void vf_prop_##NAME(vf::Case& c)

#define VF_KNOWN(ID, WHAT)                                                   \
  static void vf_known_##ID();                                               \
  static vf::Reg vf_regk_##ID{vf::Known{#ID, WHAT, &vf_known_##ID}};         \
  static void vf_known_##ID()

#define VF_NOTE(X)         \
  do                       \
  {                        \
    if (c.verbose)         \
      c.log << X << "\n";  \
  } while (0)

#define VF_FAIL(X)                \
  do                              \
  {                               \
    std::ostringstream vf_os;     \
    vf_os.precision(17);          \
    vf_os << X;                   \
    throw vf::Fail(vf_os.str());  \
  } while (0)

#define VF_CHECK(COND, X)                              \
  do                                                   \
  {                                                    \
    if (!(COND))                                       \
      VF_FAIL(#COND << " is false: " << X);            \
  } while (0)
