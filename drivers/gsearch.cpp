#include <limits>
#include <memory>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include "drv.hpp"
#include "bignew.hpp"
using namespace common_robotics_utilities;
using V = int64_t;
using G = simple_graph::Graph<V>;
using O1 = simple_graph::NonOwningGraphOverlay<V, G>;
using Edge = simple_graph::GraphEdge;
namespace gs = simple_graph_search;
struct E { int64_t u, v, w; int ok; };
static double W(int64_t w) { return w >= drv::kInf ? std::numeric_limits<double>::infinity() : drv::Fine(static_cast<double>(w)); }
template<typename T> static std::string Print(const T& g) { return g.Print(); }
struct Q
{
  int64_t n; std::vector<E> es; std::vector<std::pair<int64_t, int64_t>> ss; std::vector<int64_t> gl, h; bool limit; int api; int64_t dsrc;
};
template<typename T> static void Search(const T& g, const Q& q, drv::Case& c)
{
  const std::string before = Print(g);
  std::vector<std::vector<int64_t>> elog;
  for (auto& e : q.es) elog.push_back({e.u, e.v, e.w, q.api == 0 || e.ok ? 1 : 0});
  // Dijkstra
  {
    std::vector<drv::Raw> dist; std::vector<int64_t> prev; std::vector<long long> bad;
    const auto how = drv::Try([&]
    {
      const auto r0 = gs::PerformDijkstrasAlgorithm(g, q.dsrc);
      std::vector<uint8_t> buf(3, 1);
      gs::DijkstrasResult::Serialize(r0, buf);
      const auto r = gs::DijkstrasResult::Deserialize(buf, 3).Value();
      // cut short anywhere: refused; one byte changed: refused, or what it spells
      if (q.n <= 4) for (size_t k = 3; k < buf.size(); k++)
      {
        if (drv::Try([&] { gs::DijkstrasResult::Deserialize(std::vector<uint8_t>(buf.begin(), buf.begin() + static_cast<long>(k)), 3); }) != "err") bad.push_back(static_cast<long long>(k));
        auto b = buf; b[k] = static_cast<uint8_t>(b[k] ^ (1u << (k % 7)));
        const auto st = drv::Try([&] {
          const auto y = gs::DijkstrasResult::Deserialize(b, 3);
          std::vector<uint8_t> again(3, 1); gs::DijkstrasResult::Serialize(y.Value(), again);
          bool fine = y.BytesRead() + 3 == again.size() && again.size() <= b.size() && std::equal(again.begin(), again.end(), b.begin());
          for (int64_t i = 0; i < y.Value().Size(); i++) { try { y.Value().GetPreviousIndex(i); y.Value().GetNodeDistance(i); } catch (const std::exception&) { fine = false; } }
          if (!fine) bad.push_back(-static_cast<long long>(k));
        });
        if (st == "unk") bad.push_back(-static_cast<long long>(k));
      }
      for (const int64_t more : {-1, 1}) for (const int64_t n2 : {q.n, q.n + 5})
        if (drv::Try([&] { gs::DijkstrasResult(std::vector<int64_t>(static_cast<size_t>(n2), 0), std::vector<double>(static_cast<size_t>(n2 + more), 0.0)); }) != "err") bad.push_back(0);
      for (int64_t k = 0; k < r.Size(); k++) { dist.push_back(drv::DU(r.GetNodeDistance(k))); prev.push_back(r.GetPreviousIndex(k)); }
    });
    c.Ev("op", "dijkstra", "n", q.n, "E", elog, "s", q.dsrc, "how", how, "dist", dist, "prev", prev, "bad", bad, "same", before == Print(g));
  }
  std::vector<int64_t> starts; for (auto& s : q.ss) starts.push_back(s.first);
  const auto isok = [&](int64_t a, int64_t b) { for (auto& e : q.es) if (e.u == a && e.v == b) return e.ok != 0; throw std::logic_error("no such edge"); };
  const auto heur = [&](int64_t a) { return W(q.h.at(static_cast<size_t>(a))); };
  gs::AstarIndexResult res;
  const auto how = drv::Try([&]
  {
    const std::function<double(const V&, const V&)> hv = [&](const V& a, const V&) { return heur(a - 100); };
    const std::function<bool(const V&, const V&)> okv = [&](const V& a, const V& b) { return isok(a - 100, b - 100); };
    const std::function<double(const V&, const V&)> dv = [&](const V& a, const V& b) { for (auto& e : q.es) if (e.u == a - 100 && e.v == b - 100) return W(e.w); throw std::logic_error("no such edge"); };
    const std::function<bool(const T&, const Edge&)> oke = [&](const T&, const Edge& e) { return isok(e.GetFromIndex(), e.GetToIndex()); };
    const std::function<double(const T&, const Edge&)> de = [&](const T&, const Edge& e) { return e.GetWeight(); };
    const std::function<double(const T&, int64_t, int64_t)> h3 = [&](const T&, int64_t a, int64_t) { return heur(a); };
    const std::function<double(const T&, int64_t)> h2 = [&](const T&, int64_t a) { return heur(a); };
    const std::function<bool(const T&, int64_t)> goal = [&](const T&, int64_t a) { for (int64_t x : q.gl) if (x == a) return true; return false; };
    if (q.api == 0) res = gs::PerformAstarSearch<V, T>(g, starts, q.gl, hv, q.limit);
    else if (q.api == 1) res = gs::PerformLazyAstarSearch<V, T>(g, starts, q.gl, okv, dv, hv, q.limit);
    else if (q.api == 2) res = gs::PerformLazyAstarSearch<T>(g, starts, q.gl, oke, de, h3, q.limit);
    else
    {
      gs::IndexStatesWithCosts sc; for (auto& s : q.ss) sc.emplace_back(s.first, drv::Fine(static_cast<double>(s.second)));
      res = gs::PerformLazyAstarSearch<T>(g, sc, goal, oke, de, h2, q.limit);
    }
  });
  std::vector<std::pair<int64_t, int64_t>> slog; for (auto& s : q.ss) slog.emplace_back(s.first, q.api == 3 ? s.second : 0);
  c.Ev("op", "graph", "api", q.api, "n", q.n, "E", elog, "S", slog, "G", q.gl, "h", q.h, "how", how, "path", res.Path(), "cost", drv::DU(res.PathCost()), "same", before == Print(g));
}
static void DoCase(drv::Tokens& t, drv::Case& c)
{
  Q q; q.n = t.Int(); const long long m = t.Int();
  for (long long i = 0; i < m; i++) { E e; e.u = t.Int(); e.v = t.Int(); e.w = t.Int(); e.ok = static_cast<int>(t.Int()); q.es.push_back(e); }
  const long long ns = t.Int(); for (long long i = 0; i < ns; i++) { const int64_t s = t.Int(); q.ss.emplace_back(s, t.Int()); }
  q.gl = t.List<int64_t>(); q.h = t.List<int64_t>(); q.limit = t.Int() != 0; q.api = static_cast<int>(t.Int()); q.dsrc = t.Int();
  const int type = static_cast<int>(t.Int()); const std::vector<int> extra = t.List();   // extra: junk nodes inserted before node k
  const auto addedge = [](auto& g, int64_t a, int64_t b, double w) { g.AddEdgeBetweenNodes(a, b, w); };
  c.Head("type", type);
  if (type == 0)
  { G g; for (int64_t k = 0; k < q.n; k++) g.AddNode(100 + k); for (auto& e : q.es) addedge(g, e.u, e.v, W(e.w)); Search(g, q, c); }
  else if (type == 1)
  {
    G g; const int64_t nb = q.n / 2;
    for (int64_t k = 0; k < nb; k++) g.AddNode(100 + k);
    size_t i = 0; std::vector<E> rest;
    for (auto& e : q.es) if (e.u < nb && e.v < nb && i++ % 2 == 0) addedge(g, e.u, e.v, W(e.w)); else rest.push_back(e);
    O1 o(g);
    for (int64_t k = nb; k < q.n; k++) o.AddNode(100 + k);
    for (auto& e : rest) addedge(o, e.u, e.v, W(e.w));
    Search(o, q, c);
  }
  else
  {
    G g; std::vector<int64_t> at; std::unordered_set<int64_t> junk;
    for (int64_t k = 0; k < q.n; k++)
    {
      for (int x : extra) if (x == k) { const auto j = g.AddNode(7777); junk.insert(j); }
      at.push_back(g.AddNode(100 + k));
    }
    size_t z = 0;
    for (int64_t j : junk) { addedge(g, j, at[z++ % at.size()], 0.0); addedge(g, at[z % at.size()], j, 0.0); }
    for (auto& e : q.es) addedge(g, at[static_cast<size_t>(e.u)], at[static_cast<size_t>(e.v)], W(e.w));
    const G p = g.MakePrunedCopy(junk, parallelism::DegreeOfParallelism(1 + type % 3));
    Search(p, q, c);
  }
}
int main(int argc, char** argv) { return drv::Main(argc, argv, DoCase, 40); }
