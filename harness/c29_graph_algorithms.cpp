// C29: transitive closure and breadth-first search agree with plain references.
#include "vf.hpp"

#include <ossia/dataflow/graph/breadth_first_search.hpp>
#include <ossia/dataflow/graph/transitive_closure.hpp>

#include <deque>
#include <boost/container/deque.hpp>

const char* const vf::rule
    = "sequences of directed graphs (acyclic, cyclic, loops, parallel edges, 0 to 24 "
      "vertices) run through one reused state; non-trivial: a path of two edges or more";

using G = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS>;
using GS = boost::adjacency_list<boost::setS, boost::vecS, boost::bidirectionalS>;

struct Edges
{
  int n;
  std::vector<std::pair<int, int>> e;
};
static Edges gen(vf::Case& c, int maxn = 24)
{
  Edges g;
  g.n = (int)c.range(0, maxn);
  if (!g.n)
    return g;
  const bool dag = c.coin();
  const int m = (int)c.range(0, 2 * g.n + 2);
  for (int i = 0; i < m; i++)
  {
    int a = (int)c.draw(g.n), b = (int)c.draw(g.n);
    if (dag)
    {
      if (a == b)
        continue;
      if (a > b && c.chance(7, 8))
        std::swap(a, b);
    }
    g.e.push_back({a, b});
  }
  return g;
}
static std::string show(const Edges& g)
{
  std::string s = std::to_string(g.n) + " vertices:";
  for (auto [a, b] : g.e)
    s += " " + std::to_string(a) + ">" + std::to_string(b);
  return s;
}
static std::vector<std::vector<char>> reach(const Edges& g)
{
  std::vector<std::vector<char>> r(g.n, std::vector<char>(g.n, 0));
  for (auto [a, b] : g.e)
    r[a][b] = 1;
  for (int k = 0; k < g.n; k++)
    for (int i = 0; i < g.n; i++)
      if (r[i][k])
        for (int j = 0; j < g.n; j++)
          r[i][j] |= r[k][j];
  return r;
}

template <typename GR>
static void closure(vf::Case& c)
{
  ossia::TransitiveClosureState<GR, G> st;
  bool nt = false;
  for (int n = 0; n == 0 || c.more(n, 5, 2); n++)
  {
    const auto eg = gen(c);
    VF_NOTE(show(eg));
    GR g(eg.n);
    for (auto [a, b] : eg.e)
      boost::add_edge(a, b, g);
    G tc;
    ossia::transitive_closure(g, tc, st);
    if (!eg.n)
    {
      VF_CHECK(boost::num_vertices(tc) == 0, "closure of an empty graph");
      continue;
    }
    VF_CHECK((int)boost::num_vertices(tc) == eg.n, boost::num_vertices(tc) << " vertices");
    const auto r = reach(eg);
    std::vector<std::vector<char>> got(eg.n, std::vector<char>(eg.n, 0));
    std::vector<int> of(eg.n, -1);
    std::set<int> seen;
    for (int i = 0; i < eg.n; i++)
    {
      of[i] = (int)st.to_tc_vec[i];
      VF_CHECK(of[i] >= 0 && of[i] < eg.n && seen.insert(of[i]).second, "vertex map");
    }
    std::vector<int> inv(eg.n);
    for (int i = 0; i < eg.n; i++)
      inv[of[i]] = i;
    for (auto [i, e] = boost::edges(tc); i != e; ++i)
      got[inv[boost::source(*i, tc)]][inv[boost::target(*i, tc)]] = 1;
    for (int i = 0; i < eg.n; i++)
      for (int j = 0; j < eg.n; j++)
      {
        VF_CHECK(
            got[i][j] == r[i][j], show(eg) << ": " << i << (got[i][j] ? " reaches " : " does not reach ")
                                           << j << " in the closure");
        if (r[i][j] && std::find(eg.e.begin(), eg.e.end(), std::pair(i, j)) == eg.e.end())
          nt = true;
      }
  }
  c.nontrivial(nt);
}
VF_PROP(transitive_closure, 15000, 200000)
{
  if (c.coin())
    closure<G>(c);
  else
    closure<GS>(c);
}

struct Vis
{
  std::vector<int> order;
  int stop{-1};
  bool discover_vertex(std::size_t v, const G&)
  {
    order.push_back((int)v);
    return (int)v == stop;
  }
};
VF_PROP(breadth_first_search, 30000, 400000)
{
  auto color = boost::make_two_bit_color_map_fast(0, boost::identity_property_map{});
  for (int k = 0; k == 0 || c.more(k, 4, 2); k++)
  {
    auto eg = gen(c);
    if (!eg.n)
      continue;
    VF_NOTE(show(eg));
    G g(eg.n);
    for (auto [a, b] : eg.e)
      boost::add_edge(a, b, g);
    const int s = (int)c.draw(eg.n);
    // distances
    std::vector<int> dist(eg.n, -1);
    std::deque<int> q{s};
    dist[s] = 0;
    while (!q.empty())
    {
      int u = q.front();
      q.pop_front();
      for (auto [a, b] : eg.e)
        if (a == u && dist[b] < 0)
          dist[b] = dist[u] + 1, q.push_back(b);
    }
    Vis v;
    if (c.coin())
      v.stop = (int)c.draw(eg.n);
    if (v.stop == s)
      v.stop = -1;
    color.resize(eg.n);
    boost::container::deque<std::size_t> Q;
    ossia::bfs::breadth_first_search_simple(g, (std::size_t)s, v, Q, color);
    VF_CHECK(!v.order.empty() && v.order[0] == s, "the source comes first");
    std::vector<int> seen(eg.n, 0);
    int last = 0;
    for (std::size_t i = 0; i < v.order.size(); i++)
    {
      const int u = v.order[i];
      VF_CHECK(!seen[u]++, show(eg) << " from " << s << ": vertex " << u << " discovered twice");
      VF_CHECK(dist[u] >= 0, show(eg) << " from " << s << ": vertex " << u << " is not reachable");
      VF_CHECK(dist[u] >= last, show(eg) << " from " << s << ": vertex " << u << " discovered too late");
      last = dist[u];
      if (u == v.stop)
        VF_CHECK(i + 1 == v.order.size(), "the search went on after it was told to stop");
      if (dist[u] > 1)
        c.nontrivial();
    }
    const bool stopped = v.stop >= 0 && dist[v.stop] >= 0;
    if (!stopped)
      for (int u = 0; u < eg.n; u++)
        VF_CHECK(
            (dist[u] >= 0) == (seen[u] > 0), show(eg) << " from " << s << ": vertex " << u << " was not discovered");
    else
      VF_CHECK(v.order.back() == v.stop, "the vertex to stop at was not discovered");
    VF_CHECK(v.order.size() <= (std::size_t)eg.n, "too many discoveries");
  }
}

VF_PROP(color_map, 30000, 300000)
{
  std::size_t n = c.size(1, 40);
  auto m = boost::make_two_bit_color_map_fast(n, boost::identity_property_map{});
  std::vector<int> ref(n, 0);
  int k = 0;
  for (; c.more(k, 40, 15); k++)
  {
    if (c.chance(1, 16))
    {
      n = c.size(1, 40);
      m.resize(n);
      ref.assign(n, 0);
    }
    const auto i = c.draw(n);
    const int v = (int)c.draw(4);
    put(m, i, (boost::two_bit_color_type)v);
    ref[i] = v;
    for (std::size_t j = 0; j < n; j++)
      VF_CHECK((int)get(m, j) == ref[j], "color of " << j << " is " << (int)get(m, j) << ", expected " << ref[j]);
  }
  c.nontrivial(k > 2);
}
