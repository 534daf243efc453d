// C33: small containers and algorithms behave as their plain models.
#include "vf.hpp"

#include <ossia/detail/algorithms.hpp>
#include <ossia/detail/any_map.hpp>
#include <ossia/detail/closest_element.hpp>
#include <ossia/detail/flat_map.hpp>
#include <ossia/detail/flat_set.hpp>
#include <ossia/detail/for_each.hpp>
#include <ossia/detail/for_each_in_tuple.hpp>
#include <ossia/detail/hash.hpp>
#include <ossia/detail/hash_map.hpp>
#include <ossia/detail/math.hpp>
#include <ossia/detail/murmur3.hpp>
#include <ossia/detail/pod_vector.hpp>
#include <ossia/detail/ptr_set.hpp>
#include <ossia/detail/safe_vec.hpp>
#include <ossia/detail/small_vector.hpp>
#include <ossia/detail/string_map.hpp>
#include <ossia/detail/to_tuple.hpp>
#include <ossia/network/base/listening.hpp>

#include <algorithm>
#include <map>
#include <memory>
#include <unordered_map>

const char* const vf::rule
    = "sequences, maps, sets of attributes and edit histories over them; numbers for the "
      "mathematical helpers; non-trivial: three or more elements or edits";

typedef std::vector<int> VI;
static std::string show(const VI& v)
{
  std::string s = "[";
  for (auto x : v)
    s += std::to_string(x) + " ";
  return s + "]";
}
static VI gen_vec(vf::Case& c, std::size_t max = 12, int hi = 6)
{
  VI v(c.size(0, max));
  for (auto& x : v)
    x = (int)c.range(-2, hi);
  return v;
}

// ---- sequences ---------------------------------------------------------------
template <typename V>
static void sequence_history(vf::Case& c)
{
  V v;
  VI m;
  int n = 0;
  for (; c.more(n, 30, 12); n++)
  {
    const int x = (int)c.range(-2, 6);
    const int k = (int)c.range(-2, 6);
    const auto pred = [&](int y) { return y > x && y < x + 3; };
    switch (c.draw(13))
    {
      case 0:
        v.push_back(x);
        m.push_back(x);
        VF_NOTE("push " << x);
        break;
      case 1: {
        const VI w = gen_vec(c, 8);
        V src(w.begin(), w.end());
        ossia::copy(src, v);
        m.insert(m.end(), w.begin(), w.end());
        VF_NOTE("copy " << show(w));
        break;
      }
      case 2: {
        const VI w = gen_vec(c, 8);
        V src(w.begin(), w.end());
        ossia::copy_if(src, v, pred);
        for (int y : w)
          if (pred(y))
            m.push_back(y);
        VF_NOTE("copy_if " << show(w) << " x=" << x);
        break;
      }
      case 3: {
        ossia::remove_one(v, x);
        auto it = std::find(m.begin(), m.end(), x);
        if (it != m.end())
          m.erase(it);
        VF_NOTE("remove_one " << x);
        break;
      }
      case 4: {
        ossia::remove_one_if(v, pred);
        for (std::size_t i = 0; i < m.size(); i++)
          if (pred(m[i]))
          {
            m.erase(m.begin() + i);
            break;
          }
        VF_NOTE("remove_one_if " << x);
        break;
      }
      case 5: {
        ossia::remove_erase(v, x);
        VI r;
        for (int y : m)
          if (y != x)
            r.push_back(y);
        m = r;
        VF_NOTE("remove_erase " << x);
        break;
      }
      case 6:
      case 7: {
        if (c.coin())
          ossia::remove_erase_if(v, pred);
        else
          ossia::erase_if(v, pred);
        VI r;
        for (int y : m)
          if (!pred(y))
            r.push_back(y);
        m = r;
        VF_NOTE("erase_if " << x);
        break;
      }
      case 8: {
        ossia::remove_duplicates(v);
        if (m.size() > 1)
        {
          std::set<int> s(m.begin(), m.end());
          m.assign(s.begin(), s.end());
        }
        VF_NOTE("remove_duplicates");
        break;
      }
      case 9: {
        // keeps a sorted sequence sorted
        ossia::sort(v);
        std::multiset<int> s(m.begin(), m.end());
        m.assign(s.begin(), s.end());
        VF_CHECK(VI(v.begin(), v.end()) == m, "sort gave " << show(VI(v.begin(), v.end())));
        const auto it = ossia::emplace_sorted(v, x, std::less<>{}, x);
        VF_CHECK(*it == x, "emplace_sorted returned " << *it);
        s.insert(x);
        m.assign(s.begin(), s.end());
        VF_NOTE("emplace_sorted " << x);
        break;
      }
      case 10: {
        ossia::sort(v, std::greater<>{});
        std::multiset<int, std::greater<>> s(m.begin(), m.end());
        m.assign(s.begin(), s.end());
        VF_NOTE("sort desc");
        break;
      }
      case 11:
        if (c.chance(1, 4))
        {
          ossia::fill(v, k);
          for (int& y : m)
            y = k;
          VF_NOTE("fill " << k);
        }
        break;
      default: {
        V out;
        ossia::transform(v, std::back_inserter(out), [&](int y) { return y * 2 + k; });
        VI r;
        for (int y : m)
          r.push_back(y * 2 + k);
        VF_CHECK(VI(out.begin(), out.end()) == r, "transform");
        VF_CHECK(ossia::equal(v, m), "equal");
      }
    }
    const VI now(v.begin(), v.end());
    VF_CHECK(now == m, "the sequence is " << show(now) << ", expected " << show(m));
    // queries
    const auto ri = std::find(m.begin(), m.end(), k) - m.begin();
    VF_CHECK(ossia::find(v, k) - v.begin() == ri, "find " << k << " in " << show(m));
    const auto rp = std::find_if(m.begin(), m.end(), pred) - m.begin();
    VF_CHECK(ossia::find_if(v, pred) - v.begin() == rp, "find_if in " << show(m));
    const bool has = ri != (long)m.size(), hasp = rp != (long)m.size();
    const long cnt = std::count_if(m.begin(), m.end(), pred);
    VF_CHECK(ossia::contains(v, k) == has, "contains " << k << " in " << show(m));
    VF_CHECK(ossia::any_of(v, pred) == hasp, "any_of in " << show(m));
    VF_CHECK(ossia::none_of(v, pred) == !hasp, "none_of in " << show(m));
    VF_CHECK(ossia::all_of(v, pred) == (cnt == (long)m.size()), "all_of in " << show(m));
    VF_CHECK(ossia::count_if(v, pred) == cnt, "count_if in " << show(m));
    auto* pf = ossia::ptr_find(v, k);
    VF_CHECK(pf == (has ? &v[ri] : nullptr), "ptr_find " << k << " in " << show(m));
    auto* pfi = ossia::ptr_find_if(v, pred);
    VF_CHECK(pfi == (hasp ? &v[rp] : nullptr), "ptr_find_if in " << show(m));
  }
  c.nontrivial(n >= 3);
}
VF_PROP(sequences, 40000, 500000)
{
  switch (c.draw(3))
  {
    case 0:
      sequence_history<std::vector<int>>(c);
      break;
    case 1:
      sequence_history<ossia::pod_vector<int>>(c);
      break;
    default:
      sequence_history<ossia::small_vector<int, 4>>(c);
  }
}

VF_PROP(moved_to_the_end, 20000, 200000)
{
  std::vector<std::string> a, b, m;
  for (std::size_t n = c.size(0, 5); n-- > 0;)
    a.push_back(c.str(30));
  for (std::size_t n = c.size(0, 5); n-- > 0;)
    b.push_back(c.str(30));
  m = a;
  m.insert(m.end(), b.begin(), b.end());
  ossia::insert_at_end(a, std::move(b));
  VF_CHECK(a == m, "insert_at_end");
  c.nontrivial(m.size() >= 3);

  // the last key not after k
  std::map<int, int> mp;
  ossia::flat_map<int, int> fm;
  for (std::size_t n = c.size(1, 8); n-- > 0;)
  {
    const int k = (int)c.range(-10, 10);
    mp[k] = k * 3;
    fm[k] = k * 3;
  }
  const int k = (int)c.range(-12, 12);
  int want = mp.begin()->first;
  for (auto& [kk, vv] : mp)
    if (kk <= k)
      want = kk;
  VF_CHECK(ossia::last_before(mp, k)->first == want, "last_before " << k);
  VF_CHECK(ossia::last_before(mp, k)->second == want * 3, "last_before " << k);
  VF_CHECK(ossia::last_before(fm, k)->first == want, "last_before (flat) " << k);
}

// ---- safe_vector, safe_set, ptr maps --------------------------------------------
VF_PROP(safe_containers, 30000, 400000)
{
  static int pool[16];
  ossia::safe_vector<int*> v;
  ossia::safe_set<int*> s;
  ossia::ptr_map<int*, int> pm;
  std::vector<int*> mv;
  std::set<int*> ms;
  std::map<int*, int> mpm;
  int n = 0;
  for (; c.more(n, 40, 15); n++)
  {
    int* p = &pool[c.draw(16)];
    switch (c.draw(7))
    {
      case 0:
      case 1:
        v.push_back(p);
        mv.push_back(p);
        s.push_back(p);
        ms.insert(p);
        break;
      case 2:
        v.remove_all(p);
        mv.erase(std::remove(mv.begin(), mv.end(), p), mv.end());
        break;
      case 3:
        s.remove_all(p);
        ms.erase(p);
        break;
      case 4:
        if (c.chance(1, 6))
        {
          v.clear();
          mv.clear();
        }
        if (c.chance(1, 6))
        {
          s.clear();
          ms.clear();
        }
        break;
      case 5:
        pm[p] = n;
        mpm[p] = n;
        break;
      default:
        pm.erase(p);
        mpm.erase(p);
        v.reserve(c.size(0, 40));
        s.reserve(c.size(0, 40));
    }
    VF_CHECK(v.copy() == mv && v.reference() == mv, "safe_vector content");
    VF_CHECK(v.size() == mv.size() && v.empty() == mv.empty(), "safe_vector size");
    VF_CHECK(s.size() == ms.size() && s.empty() == ms.empty(), "safe_set size");
    VF_CHECK(pm.size() == mpm.size(), "ptr_map size");
    for (auto& x : pool)
    {
      VF_CHECK(s.contains(&x) == (ms.count(&x) > 0), "safe_set contains");
      VF_CHECK(v.contains(&x) == ossia::contains(mv, &x), "safe_vector contains");
      auto it = pm.find(&x);
      auto im = mpm.find(&x);
      VF_CHECK((it != pm.end()) == (im != mpm.end()), "ptr_map find");
      if (im != mpm.end())
        VF_CHECK(it->second == im->second, "ptr_map value");
    }
    std::set<int*> it(s.begin(), s.end());
    VF_CHECK(it == ms, "safe_set iteration");
  }
  // shared pointers are found through plain ones
  {
    std::vector<std::shared_ptr<int>> ps;
    ossia::shared_ptr_set<int> set;
    for (int i = 0; i < 6; i++)
    {
      ps.push_back(std::make_shared<int>(i));
      if (c.coin())
        set.insert(ps.back());
    }
    ossia::EgurHash<int> h;
    ossia::PointerPredicate<int> eq;
    for (auto& a : ps)
    {
      VF_CHECK(h(a) == h(a.get()), "hash of shared and plain pointer");
      for (auto& b : ps)
      {
        VF_CHECK(eq(a, b) == (&a == &b), "shared/shared");
        VF_CHECK(eq(a.get(), b) == (&a == &b), "plain/shared");
        VF_CHECK(eq(a, b.get()) == (&a == &b), "shared/plain");
        VF_CHECK(eq(a.get(), b.get()) == (&a == &b), "plain/plain");
      }
    }
  }
  c.nontrivial(n >= 3);
}

// pointers into an array spread over many hashes
template <std::size_t N>
struct blob
{
  char c[N];
};
template <std::size_t N>
static void spread(vf::Case& c)
{
  static std::vector<blob<N>> arr(64);
  std::set<std::size_t> hs;
  ossia::EgurHash<blob<N>> h;
  for (auto& x : arr)
    hs.insert(h(&x));
  VF_CHECK(
      hs.size() >= 30, hs.size() << " hashes for 64 objects of " << N << " bytes in an array");
}
VF_PROP(pointer_hash, 200, 2000)
{
  spread<1>(c), spread<3>(c), spread<4>(c), spread<7>(c), spread<8>(c), spread<24>(c), spread<100>(c);
  c.nontrivial();
  // combining depends on every part and on the order
  const uint64_t a = c.draw(0), b = c.draw(0), d = c.draw(0);
  uint64_t s1 = a, s2 = a, s3 = a;
  ossia::hash_combine(s1, b);
  ossia::hash_combine(s2, d);
  VF_CHECK((s1 == s2) == (b == d), "hash_combine(64): " << b << " " << d);
  ossia::hash_combine(s3, b);
  VF_CHECK(s3 == s1, "hash_combine(64) is not a function");
  uint32_t t1 = (uint32_t)a, t2 = (uint32_t)a;
  ossia::hash_combine(t1, (uint32_t)b);
  ossia::hash_combine(t2, (uint32_t)d);
  VF_CHECK((t1 == t2) == ((uint32_t)b == (uint32_t)d), "hash_combine(32)");
  std::size_t u1 = a, u2 = a, u3 = a;
  ossia::hash_combine(u1, std::string("a" + std::to_string(b)));
  ossia::hash_combine(u2, std::string("a" + std::to_string(d)));
  ossia::hash_combine(u3, std::string("a" + std::to_string(b)));
  VF_CHECK((u1 == u2) == (b == d), "hash_combine(text)");
  VF_CHECK(u1 == u3, "hash_combine(text)");
  uint64_t v1 = a, v2 = a;
  ossia::hash_combine(v1, (int32_t)b);
  ossia::hash_combine(v2, (int32_t)d);
  VF_CHECK((v1 == v2) == ((int32_t)b == (int32_t)d), "hash_combine(64, 32)");
}

// ---- murmur3 against the published definition ---------------------------------
static uint32_t rotl(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static uint32_t ref_murmur32(const std::string& s, uint32_t seed)
{
  uint32_t h = seed;
  const std::size_t nb = s.size() / 4;
  auto byte = [&](std::size_t i) { return (uint32_t)(uint8_t)s[i]; };
  for (std::size_t i = 0; i < nb; i++)
  {
    uint32_t k = byte(4 * i) | byte(4 * i + 1) << 8 | byte(4 * i + 2) << 16 | byte(4 * i + 3) << 24;
    h ^= rotl(k * 0xcc9e2d51u, 15) * 0x1b873593u;
    h = rotl(h, 13) * 5 + 0xe6546b64u;
  }
  uint32_t k = 0;
  for (std::size_t i = s.size(); i-- > nb * 4;)
    k = k << 8 | byte(i);
  if (s.size() % 4)
    h ^= rotl(k * 0xcc9e2d51u, 15) * 0x1b873593u;
  h ^= (uint32_t)s.size();
  h ^= h >> 16;
  h *= 0x85ebca6bu;
  h ^= h >> 13;
  h *= 0xc2b2ae35u;
  return h ^ h >> 16;
}
VF_PROP(text_hash, 60000, 600000)
{
  const std::string s = c.bytes(c.coin() ? 8 : 40);
  const uint32_t seed = (uint32_t)c.draw(1ull << 32);
  uint32_t h = 0;
  ossia::murmur::murmur3_x86_32(s.data(), (int)s.size(), seed, h);
  VF_CHECK(h == ref_murmur32(s, seed), "murmur3_x86_32 of " << s.size() << " bytes");
  ossia::string_hash sh;
  VF_CHECK(sh(s) == sh(std::string_view(s)), "text and view of it hash alike");
  VF_CHECK(sh(s) == ref_murmur32(s, 0), "string_hash");
  VF_CHECK(sh("abc") == sh(std::string("abc")), "literal");
  ossia::string_equal eq;
  const std::string t = c.coin() ? s : c.bytes(3);
  VF_CHECK(eq(s, t) == (s == t), "string_equal");
  VF_CHECK(eq(std::string_view(s), t) == (s == t), "string_equal");
  VF_CHECK(eq(s, std::string_view(t)) == (s == t), "string_equal");
  VF_CHECK(eq(s, "ab") == (s == "ab"), "string_equal");
  VF_CHECK(eq("ab", s) == (s == "ab"), "string_equal");
  c.nontrivial(s.size() >= 3);
  // 128 bits: a pure function of the bytes (any alignment) in which every byte counts
  {
    alignas(16) char buf[64 + 16];
    const int off = 4 * (int)c.range(0, 3);
    std::memcpy(buf + off, s.data(), s.size());
    uint32_t o1[4], o2[4];
    ossia::murmur::murmur3_x86_128(buf + off, (int)s.size(), seed, o1);
    alignas(16) char buf2[64];
    std::memcpy(buf2, s.data(), s.size());
    ossia::murmur::murmur3_x86_128(buf2, (int)s.size(), seed, o2);
    VF_CHECK(std::equal(o1, o1 + 4, o2), "murmur3_x86_128 is not a function of the bytes");
    if (!s.empty())
    {
      const auto i = c.draw(s.size());
      buf2[i] ^= (char)(1 + c.draw(255));
      ossia::murmur::murmur3_x86_128(buf2, (int)s.size(), seed, o2);
      VF_CHECK(!std::equal(o1, o1 + 4, o2), "byte " << i << " of " << s.size() << " does not count");
    }
  }
}

// ---- attributes --------------------------------------------------------------
VF_PROP(attributes, 30000, 400000)
{
  struct A
  {
    int kind{-1}; // 0: empty tag 1: int 2: text 3: vector 4: float
    int i{};
    std::string s;
    VI v;
  };
  ossia::any_map m;
  std::map<std::string, A> ref;
  static const char* const KEYS[] = {"a", "ab", "description", "Description", "", "tags"};
  int n = 0;
  for (; c.more(n, 30, 12); n++)
  {
    const std::string k = c.pick(KEYS);
    const ossia::string_view kv = k;
    switch (c.draw(9))
    {
      case 0: {
        const int x = c.i32();
        ossia::set_attribute(m, kv, x);
        ref[k] = A{1, x};
        VF_NOTE(k << " = int " << x);
        break;
      }
      case 1: {
        // from a variable that is used again
        std::string x = c.str(20), keep = x;
        ossia::set_attribute(m, kv, x);
        VF_CHECK(x == keep, "setting an attribute from a variable changed the variable");
        if (x.empty())
          ref.erase(k);
        else
          ref[k] = A{2, 0, x};
        VF_NOTE(k << " = '" << x << "'");
        break;
      }
      case 2: {
        const std::string x = c.str(20);
        if (c.coin())
          ossia::set_attribute(m, kv, std::string(x));
        else
          ossia::set_attribute(m, kv, x);
        if (x.empty())
          ref.erase(k);
        else
          ref[k] = A{2, 0, x};
        VF_NOTE(k << " = '" << x << "'");
        break;
      }
      case 3: {
        VI x = gen_vec(c, 4);
        if (c.coin())
          ossia::set_attribute(m, kv, VI(x));
        else
        {
          const VI& cx = x;
          ossia::set_attribute(m, kv, cx);
        }
        if (x.empty())
          ref.erase(k);
        else
          ref[k] = A{3, 0, "", x};
        VF_NOTE(k << " = " << show(x));
        break;
      }
      case 4:
        ossia::set_attribute(m, kv);
        if (!ref.count(k))
          ref[k] = A{0};
        VF_NOTE("tag " << k);
        break;
      case 5:
        ossia::set_attribute(m, kv, std::nullopt);
        ref.erase(k);
        VF_NOTE("none " << k);
        break;
      case 6:
        ossia::unset_attribute(m, kv);
        ref.erase(k);
        VF_NOTE("unset " << k);
        break;
      case 7: {
        std::optional<std::string> o;
        if (c.chance(2, 3))
          o = c.str(6);
        if (o && !o->empty())
          ref[k] = A{2, 0, *o};
        else
          ref.erase(k);
        const auto co = o;
        if (c.coin())
          ossia::set_optional_attribute(m, kv, co);
        else
          ossia::set_optional_attribute(m, kv, std::move(o));
        VF_NOTE("optional " << k << " " << (co ? *co : "-"));
        break;
      }
      default: {
        std::optional<int> o;
        if (c.chance(2, 3))
          o = c.i32();
        if (o)
          ref[k] = A{1, *o};
        else
          ref.erase(k);
        const auto co = o;
        ossia::set_optional_attribute(m, kv, co);
        VF_NOTE("optional int " << k);
      }
    }
    VF_CHECK(m.size() == ref.size(), m.size() << " attributes, expected " << ref.size());
    for (std::string q : KEYS)
    {
      auto it = ref.find(q);
      const A a = it == ref.end() ? A{} : it->second;
      VF_CHECK(ossia::has_attribute(m, q) == (a.kind >= 0), "has " << q);
      const auto oi = ossia::get_optional_attribute<int>(m, q);
      VF_CHECK(oi.has_value() == (a.kind == 1), "int " << q);
      VF_CHECK(ossia::get_attribute<int>(m, q) == (a.kind == 1 ? a.i : 0), "int " << q);
      if (oi)
        VF_CHECK(*oi == a.i, "int " << q);
      const auto os = ossia::get_optional_attribute<std::string>(m, q);
      VF_CHECK(os.has_value() == (a.kind == 2), "text " << q);
      VF_CHECK(
          ossia::get_attribute<std::string>(m, q) == (a.kind == 2 ? a.s : ""),
          "text " << q << ": '" << ossia::get_attribute<std::string>(m, q) << "' expected '" << a.s);
      if (os)
        VF_CHECK(*os == a.s, "text " << q);
      const auto ov = ossia::get_optional_attribute<VI>(m, q);
      VF_CHECK(ov.has_value() == (a.kind == 3), "vector " << q);
      if (ov)
        VF_CHECK(*ov == a.v, "vector " << q);
    }
    if (c.chance(1, 8))
    {
      // copies are independent
      ossia::any_map cp = m;
      ossia::set_attribute(cp, "description", 12345);
      VF_CHECK(
          ossia::get_attribute<int>(m, "description")
              == (ref.count("description") && ref["description"].kind == 1 ? ref["description"].i : 0),
          "changing a copy changed the original");
    }
  }
  c.nontrivial(n >= 3);
}

// ---- map shared between threads, here from one thread ---------------------------
VF_PROP(listening_map, 30000, 300000)
{
  ossia::locked_map<ossia::string_map<int>> m;
  std::map<std::string, int> ref;
  static const char* const KEYS[] = {"/a", "/b", "/a/b", "/", ""};
  int n = 0;
  for (; c.more(n, 30, 12); n++)
  {
    const std::string k = c.pick(KEYS), l = c.pick(KEYS);
    switch (c.draw(5))
    {
      case 0:
      case 1:
        if (c.coin())
          m.insert(std::make_pair(k, n));
        else
        {
          const std::pair<std::string, int> p(k, n);
          m.insert(p);
        }
        ref.insert({k, n}); // an existing entry stays
        break;
      case 2:
        m.erase(k);
        ref.erase(k);
        break;
      case 3: {
        const auto r = m.find_and_take(k);
        auto it = ref.find(k);
        VF_CHECK(r.has_value() == (it != ref.end()), "take " << k);
        if (r)
        {
          VF_CHECK(*r == it->second, "take " << k);
          ref.erase(it);
        }
        break;
      }
      default:
        if (k != l && !ref.count(l))
        {
          m.rename(k, l);
          if (auto it = ref.find(k); it != ref.end())
          {
            ref[l] = it->second;
            ref.erase(it);
          }
        }
    }
    for (std::string q : KEYS)
    {
      const auto r = m.find(q);
      auto it = ref.find(q);
      VF_CHECK(r.has_value() == (it != ref.end()), "find " << q);
      if (r)
        VF_CHECK(*r == it->second, "find " << q << " " << *r);
    }
  }
  c.nontrivial(n >= 3);
}

// ---- mathematical helpers ------------------------------------------------------
VF_PROP(math, 150000, 1500000)
{
  c.nontrivial();
  {
    const double x = c.f64(), a = c.f64(), b = c.f64();
    const double lo = std::min(a, b), hi = std::max(a, b);
    const double r = ossia::clamp(x, lo, hi);
    VF_CHECK(r == (x < lo ? lo : x > hi ? hi : x), "clamp " << x << " " << lo << " " << hi);
    VF_CHECK(ossia::clamp_min(x, lo) == std::max(x, lo), "clamp_min");
    VF_CHECK(ossia::clamp_max(x, hi) == std::min(x, hi), "clamp_max");
    const int xi = c.i32(), li = (int)c.range(-50, 50), hi2 = li + (int)c.range(0, 50);
    VF_CHECK(ossia::clamp(xi, li, hi2) == (xi < li ? li : xi > hi2 ? hi2 : xi), "clamp int");
  }
  {
    const double lo = (double)c.range(-64, 64) / 4, w = (double)c.range(1, 64) / 4;
    const double x = (double)c.range(-4000, 4000) / 16;
    // exact in binary: position modulo the range
    double k = std::floor((x - lo) / w);
    const double pos = x - k * w;
    const double r = ossia::wrap(x, lo, lo + w);
    VF_CHECK(r >= lo && r <= lo + w, "wrap " << x << " in [" << lo << "," << lo + w << "] = " << r);
    VF_CHECK(
        r == pos || (pos == lo && r == lo + w),
        "wrap " << x << " in [" << lo << "," << lo + w << "] = " << r << ", expected " << pos);
    const double f = ossia::fold(x, lo, lo + w);
    const bool odd = std::fmod(std::fabs(k), 2.) == 1.;
    const double ef = odd ? lo + (lo + w - pos) : pos;
    VF_CHECK(
        f == ef, "fold " << x << " in [" << lo << "," << lo + w << "] = " << f << ", expected " << ef);
  }
  {
    const double x = (double)c.range(-8, 8);
    const int N = (int)c.range(1, 12);
    VF_CHECK(ossia::ipow(x, N) == std::pow(x, N), "ipow " << x << " " << N);
    VF_CHECK(
        ossia::ipow((int64_t)x, N) == (int64_t)std::pow(x, N), "ipow int " << x << " " << N);
    const double y = (double)c.range(-8, 8), z = (double)c.range(-8, 8);
    VF_CHECK(std::abs(ossia::norm(x, y) - std::sqrt(x * x + y * y)) < 1e-9, "norm2");
    VF_CHECK(std::abs(ossia::norm(x, y, z) - std::sqrt(x * x + y * y + z * z)) < 1e-9, "norm3");
  }
  {
    const uint64_t n = c.draw(8) ? c.draw(1000) : c.draw(0);
    const auto l = ossia::constexpr_log2(n);
    if (n < 2)
      VF_CHECK(l == 0, "log2 " << n);
    else
      VF_CHECK((n >> l) == 1, "log2 " << n << " = " << l);
    const int i = (int)c.range(-1000000, 1000000);
    VF_CHECK(ossia::constexpr_abs(i) == (std::size_t)std::abs(i), "abs " << i);
    const double d = (double)c.range(-100000, 100000) / 16;
    VF_CHECK(ossia::constexpr_floor(d) == (int64_t)std::floor(d), "floor " << d);
    const int a = c.i32(), b = (int)c.range(1, 100);
    const auto [q, r] = ossia::div(a, b);
    VF_CHECK((int64_t)q * b + r == a && std::abs(r) < b, "div " << a << " " << b);
  }
  {
    const float lo = (float)c.range(-100, 100), range = (float)c.range(1, 2000);
    const float u = (float)c.unit_interval();
    const float v = ossia::normalized_to_log(lo, range, u);
    VF_CHECK(v >= lo - 1e-4f * range && v <= lo + range, "normalized_to_log " << u << " = " << v);
    const float w = ossia::log_to_normalized(lo, range, v);
    VF_CHECK(std::abs(w - u) < 2e-3f, "log scale " << u << " -> " << v << " -> " << w);
    VF_CHECK(ossia::log_to_normalized(lo, range, lo - u) == 0.f, "below the minimum");
    VF_CHECK(
        std::abs(ossia::log_to_normalized(lo, range, lo + range) - 1.f) < 1e-5f, "at the maximum");
    const float v2 = lo + range * u;
    const float x = ossia::log_to_normalized(lo, range, v2);
    VF_CHECK(x >= 0.f && x <= 1.00001f, "log_to_normalized " << v2 << " = " << x);
    VF_CHECK(
        std::abs(ossia::normalized_to_log(lo, range, x) - v2) < 2e-3f * (range + std::abs(lo)),
        "log scale back " << v2);
  }
}

// ---- nearest element --------------------------------------------------------------
VF_PROP(closest, 60000, 600000)
{
  VI v = gen_vec(c, 10, 40);
  v.push_back((int)c.range(-5, 45));
  const int x = (int)c.range(-8, 50);
  std::sort(v.begin(), v.end());
  c.nontrivial(v.size() >= 3);
  int best = 1 << 30;
  for (int y : v)
    best = std::min(best, std::abs(y - x));
  const int got = ossia::closest_element(v, x);
  VF_CHECK(
      std::abs(got - x) == best && std::count(v.begin(), v.end(), got),
      "closest to " << x << " in " << show(v) << " is " << got);
  std::vector<double> d(v.begin(), v.end());
  VF_CHECK(std::abs(ossia::closest_element(d, x + 0.25) - (x + 0.25)) <= best + 0.25, "closest (double)");
  {
    double b2 = 1e9;
    for (double y : d)
      b2 = std::min(b2, std::abs(y - (x + 0.25)));
    VF_CHECK(
        std::abs(ossia::closest_element(d, x + 0.25) - (x + 0.25)) == b2, "closest (double) to "
                                                                             << x + 0.25);
  }
  // from a position on, in a strictly increasing sequence
  VI u = v;
  u.erase(std::unique(u.begin(), u.end()), u.end());
  const std::size_t from = c.draw(u.size());
  auto it = ossia::closest_next_element(u.begin() + from, u.end(), x);
  int b3 = 1 << 30;
  for (std::size_t i = from; i < u.size(); i++)
    b3 = std::min(b3, std::abs(u[i] - x));
  VF_CHECK(it - u.begin() >= (long)from && it != u.end(), "closest_next left the sequence");
  VF_CHECK(
      std::abs(*it - x) == b3,
      "closest to " << x << " from position " << from << " of " << show(u) << " is " << *it);
  std::vector<std::pair<double, int>> pr;
  for (int y : u)
    pr.push_back({(double)y, y * 2});
  auto pit = ossia::closest_next_element<double, int>(
      pr.cbegin() + from, pr.cend(), (double)x);
  VF_CHECK(std::abs(pit->first - x) == b3, "closest key to " << x << " is " << pit->first);
}

// ---- tuples and type lists -----------------------------------------------------------
struct P3
{
  int a;
  float b;
  char d;
};
VF_PROP(tuples, 20000, 200000)
{
  c.nontrivial();
  const int a = c.i32();
  const std::string s = c.str(10);
  const double d = c.f64();
  const auto t = std::make_tuple(a, s, d);
  std::string log, want = std::to_string(a) + "|" + s + "|" + std::to_string(d) + "|";
  struct F
  {
    std::string& o;
    void operator()(int x) { o += std::to_string(x) + "|"; }
    void operator()(const std::string& x) { o += x + "|"; }
    void operator()(double x) { o += std::to_string(x) + "|"; }
  };
  ossia::for_each_in_tuple(t, F{log});
  VF_CHECK(log == want, "for_each_in_tuple: " << log);
  auto mt = t;
  log.clear();
  ossia::for_each_in_tuple(mt, F{log});
  VF_CHECK(log == want, "for_each_in_tuple (mutable): " << log);
  auto t2 = std::make_tuple(c.i32(), c.i32(), c.i32());
  std::vector<int> seen;
  ossia::for_each_in_tuples_ref(
      t2, mt, [&](int x, auto& y) { seen.push_back(x), y = {}; });
  VF_CHECK(
      seen == (std::vector<int>{std::get<0>(t2), std::get<1>(t2), std::get<2>(t2)}), "tuples_ref");
  VF_CHECK(
      std::get<0>(mt) == 0 && std::get<1>(mt).empty() && std::get<2>(mt) == 0, "tuples_ref writes");
  std::vector<std::size_t> idx;
  ossia::for_each_in_range<5>([&](auto n) { idx.push_back(n.value); });
  VF_CHECK(idx == (std::vector<std::size_t>{0, 1, 2, 3, 4}), "for_each_in_range");
  std::array<int, 3> arr{1, 2, 3};
  std::vector<int> got;
  ossia::tuple_array_func(
      std::make_tuple(10, 20, 30), arr, [&](int x, int& y) { got.push_back(x + y), y = x; });
  VF_CHECK(got == (VI{11, 22, 33}) && arr == (std::array<int, 3>{10, 20, 30}), "tuple_array_func");
  const int raw[4] = {a, 1, -a / 2, 3};
  VF_CHECK(ossia::to_array(raw) == (std::array<int, 4>{a, 1, -a / 2, 3}), "to_array");
  P3 p{a, (float)d, 'x'};
  VF_CHECK(ossia::to_tuple(P3(p)) == std::make_tuple(a, (float)d, 'x'), "to_tuple");

  // type lists, in order; _if stops at the first hit
  std::vector<std::size_t> sz;
  auto rec = [&](auto tag) { sz.push_back(sizeof(typename decltype(tag)::type)); };
  ossia::for_each_type_tagged<char, short, int, double>(rec);
  VF_CHECK(sz == (std::vector<std::size_t>{1, 2, 4, 8}), "for_each_type_tagged");
  sz.clear();
  ossia::for_each_tagged(std::tuple<double, char>{}, rec);
  VF_CHECK(sz == (std::vector<std::size_t>{8, 1}), "for_each_tagged");
  sz.clear();
  const std::size_t stop = (std::size_t)c.pick({1, 2, 4, 8, 16});
  ossia::for_each_type_if_tagged<char, short, int, double>([&](auto tag) {
    sz.push_back(sizeof(typename decltype(tag)::type));
    return sz.back() == stop;
  });
  std::vector<std::size_t> w;
  for (std::size_t x : {1, 2, 4, 8})
  {
    w.push_back(x);
    if (x == stop)
      break;
  }
  VF_CHECK(sz == w, "for_each_type_if_tagged");
}
