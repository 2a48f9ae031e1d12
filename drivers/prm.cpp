#include <atomic>
#include <limits>
#include <common_robotics_utilities/simple_prm_planner.hpp>
#include "drv.hpp"
using namespace common_robotics_utilities;
using V = int64_t;
using G = simple_graph::Graph<V>;
using Ov = simple_graph::NonOwningGraphOverlay<V, G>;
namespace prm = simple_prm_planner;
using parallelism::DegreeOfParallelism;
using IAD = simple_knearest_neighbors::IndexAndDistance;
template<typename X> static drv::Raw Dump(const X& g)
{
  std::vector<V> v; std::vector<drv::Raw> o, in;
  const auto Ed = [](const simple_graph::GraphEdge& e)
  { return drv::Raw{"[" + drv::J(e.GetFromIndex()) + "," + drv::J(e.GetToIndex()) + "," + drv::DU(e.GetWeight()).s + "," + drv::J(e.GetScratchpad()) + "]"}; };
  for (int64_t k = 0; k < g.Size(); k++)
  {
    const auto& n = g.GetNodeImmutable(k);
    v.push_back(n.GetValueImmutable());
    std::vector<drv::Raw> a, b;
    for (const auto& e : n.GetOutEdgesImmutable()) a.push_back(Ed(e));
    for (const auto& e : n.GetInEdgesImmutable()) b.push_back(Ed(e));
    o.push_back(drv::Raw{drv::J(a)}); in.push_back(drv::Raw{drv::J(b)});
  }
  return drv::Obj("v", v, "o", o, "i", in);
}
// A provider that answers with a fixed list, whatever it is asked.
class FixedKNN final : public prm::GraphKNNProvider<V, G>
{
public:
  FixedKNN(const std::vector<int64_t>& l, const std::function<double(const V&, const V&)>& d) : l_(l), d_(d) {}
private:
  std::vector<int64_t> l_; std::function<double(const V&, const V&)> d_;
  template<typename X> std::vector<IAD> A(const X& g, const V& s, prm::NNDistanceDirection dir) const
  {
    std::vector<IAD> r;
    for (const int64_t i : l_)
    {
      double d = 1.0;
      if (g.IndexInRange(i)) { const V o = g.GetNodeImmutable(i).GetValueImmutable(); d = dir == prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE ? d_(o, s) : d_(s, o); }
      r.push_back(IAD(i, d));
    }
    return r;
  }
  std::vector<IAD> DoGetKNearestNeighbors(const G& g, const V& s, const int64_t, const prm::NNDistanceDirection dir, const int64_t) const final { return A(g, s, dir); }
  std::vector<IAD> DoGetKNearestNeighbors(const Ov& g, const V& s, const int64_t, const prm::NNDistanceDirection dir, const int64_t) const final { return A(g, s, dir); }
};
static void DoCase(drv::Tokens& t, drv::Case& c)
{
  const int64_t m = t.Int();
  std::vector<std::vector<int64_t>> D, Vt; std::vector<int64_t> SV;
  for (int64_t a = 0; a < m; a++) { D.emplace_back(); for (int64_t b = 0; b < m; b++) D.back().push_back(t.Int()); }
  const auto readV = [&] { Vt.clear(); for (int64_t a = 0; a < m; a++) { Vt.emplace_back(); for (int64_t b = 0; b < m; b++) Vt.back().push_back(t.Int()); } };
  readV();
  for (int64_t a = 0; a < m; a++) SV.push_back(t.Int());
  c.Head("D", D, "V", Vt, "SV", SV);
  const std::function<double(const V&, const V&)> dist = [&](const V& a, const V& b) { return drv::Fine(static_cast<double>(D.at(static_cast<size_t>(a)).at(static_cast<size_t>(b)))); };
  const std::function<bool(const int32_t, const V&, const V&)> ok = [&](const int32_t, const V& a, const V& b) { return Vt.at(static_cast<size_t>(a)).at(static_cast<size_t>(b)) != 0; };
  const std::function<bool(const int32_t, const V&)> sok = [&](const int32_t, const V& a) { return SV.at(static_cast<size_t>(a)) != 0; };
  G g;
  while (t.Has())
  {
    const std::string op = t.Str();
    if (op == "V") { readV(); c.Ev("op", op, "V", Vt); continue; }
    const int deg = static_cast<int>(t.Int()), kdeg = static_cast<int>(t.Int()); const bool sym = t.Int() != 0, dup = t.Int() != 0;
    const int64_t K = t.Int();
    const DegreeOfParallelism par(deg);
    const prm::LinearGraphKNNProvider<V, G> knn(dist, DegreeOfParallelism(kdeg));
    if (op == "A")
    {
      // -1 - n: the state of node n of the roadmap itself, given by reference.
      const V x0 = t.Int(); const bool own = x0 < 0 && g.Size() > 0;
      const V x = own ? g.GetNodeImmutable((-1 - x0) % g.Size()).GetValueImmutable() : std::max<V>(x0, 0);
      const bool to = t.Int() != 0; const int64_t mx = t.Int(); const int64_t max = mx < 0 || mx > g.Size() ? g.Size() : mx;
      int64_t r = -1;
      const auto dir = to ? prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE : prm::NNDistanceDirection::NEW_STATE_TO_ROADMAP;
      const auto how = drv::Try([&] { r = prm::AddNodeToRoadmap<V, G>(own ? g.GetNodeImmutable((-1 - x0) % g.Size()).GetValueImmutable() : x, dir, g, knn, dist, ok, K, max, par, sym, dup); });
      c.Ev("op", op, "x", x, "to", to, "K", K, "max", max, "dup", dup, "sym", sym, "deg", deg, "r", r, "how", how, "G", Dump(g));
    }
    else if (op == "N")
    {
      const V x = t.Int(); const bool to = t.Int() != 0; const auto nbr = t.List<int64_t>();
      const FixedKNN fk(nbr, dist);
      const auto dir = to ? prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE : prm::NNDistanceDirection::NEW_STATE_TO_ROADMAP;
      const auto how = drv::Try([&] { prm::AddNodeToRoadmap<V, G>(x, dir, g, fk, dist, ok, K, g.Size(), par, sym, true); });
      const int64_t mx = how == "ok" ? g.Size() - 1 : g.Size();
      c.Ev("op", op, "x", x, "nbr", nbr, "max", mx, "how", how, "G", Dump(g));
    }
    else if (op == "g")
    {
      const int64_t target = t.Int(), maxs = t.Int(); const auto samples = t.List<V>();
      std::vector<V> used;
      const auto more = [&](int64_t size) { return size < target && static_cast<int64_t>(used.size()) < maxs && used.size() < samples.size(); };
      const int64_t n0 = g.Size();
      c.Ev("op", "g0", "G", Dump(g));
      bool asked = true; std::map<std::string, double> st;
      const auto record = [&] { if (!used.empty()) c.Ev("op", "gs", "x", used.back(), "K", K, "dup", dup, "more", asked, "G", Dump(g)); };
      const auto how = drv::Try([&]
      {
        const std::function<V(const int32_t)> sample = [&](const int32_t)
        {
          record();
          asked = more(g.Size());
          if (used.size() >= samples.size()) throw std::runtime_error("sampled although the stop condition held");
          used.push_back(samples[used.size()]); return used.back();
        };
        const std::function<bool(const int64_t)> term = [&](const int64_t size) { return !more(size); };
        st = prm::GrowRoadMap<V, G>(g, sample, knn, dist, sok, ok, term, K, par, sym, dup);
      });
      record();
      c.Ev("op", "g1", "how", how, "more", more(g.Size()), "samples", used, "n0", n0, "total", drv::D(st["total_samples"]), "succ", drv::D(st["successful_samples"]),
           "dup", drv::D(st["duplicate_samples"]), "fail", drv::D(st["failed_samples"]), "G", Dump(g));
    }
    else if (op == "B")
    {
      const int64_t N = t.Int(); const int tries = static_cast<int>(t.Int()); const bool ps = t.Int() != 0; const auto samples = t.List<V>();
      std::atomic<size_t> at(0);
      const bool parSampling = ps && dup && deg > 1;
      g = G();
      const auto how = drv::Try([&]
      {
        const std::function<V(const int32_t)> sample = [&](const int32_t) { const size_t k = at++; if (k >= samples.size()) throw std::runtime_error("out of samples"); return samples[k]; };
        g = prm::BuildRoadMap<V, G>(N, sample, knn, dist, sok, ok, K, tries, par, ps, sym, dup);
      });
      c.Ev("op", op, "N", N, "K", K, "tries", tries, "dup", dup, "sym", sym, "par", parSampling, "deg", deg, "samples", samples, "how", how, "G", Dump(g));
    }
    else if (op == "U")
    {
      const auto how = drv::Try([&] { prm::UpdateRoadMapEdges<V, G>(g, ok, dist, par); });
      c.Ev("op", op, "deg", deg, "how", how, "G", Dump(g));
    }
    else if (op == "Q")
    {
      const bool lazy = t.Int() != 0, add = t.Int() != 0, overlay = t.Int() != 0, limit = t.Int() != 0; const auto S = t.List<V>(), Gl = t.List<V>();
      simple_astar_search::AstarResult<V> r;
      using C = std::vector<V>;
      const auto how = drv::Try([&]
      {
        if (add && lazy) r = prm::LazyQueryPathAndAddNodes<V, C, G>(S, Gl, g, knn, dist, ok, K, par, sym, dup, limit);
        else if (add) r = prm::QueryPathAndAddNodes<V, C, G>(S, Gl, g, knn, dist, ok, K, par, sym, dup, limit);
        else if (lazy) r = prm::LazyQueryPath<V, C, G>(S, Gl, g, knn, dist, ok, K, par, sym, dup, limit, overlay);
        else r = prm::QueryPath<V, C, G>(S, Gl, g, knn, dist, ok, K, par, sym, dup, limit, overlay);
      });
      c.Ev("op", op, "lazy", lazy, "add", add, "overlay", overlay, "limit", limit, "sym", sym, "dup", dup, "K", K, "deg", deg, "S", S, "Gl", Gl, "how", how,
           "path", r.Path(), "cost", drv::DU(r.PathCost()), "G", Dump(g));
    }
    else exit(2);
  }
}
int main(int argc, char** argv) { return drv::Main(argc, argv, DoCase, 40); }
