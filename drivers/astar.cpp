#include <limits>
#include <common_robotics_utilities/simple_astar_search.hpp>
#include "drv.hpp"
using namespace common_robotics_utilities::simple_astar_search;
struct St { int64_t v; int64_t tag; };           // equality and hash are supplied by the caller
struct H { int kind = 0; size_t operator()(const St& s) const { return kind == 0 ? std::hash<int64_t>()(s.v) : kind == 1 ? 7 : static_cast<size_t>(s.v % 2); } };
struct Eq { bool operator()(const St& a, const St& b) const { return a.v == b.v; } };
static void DoCase(drv::Tokens& t, drv::Case& c)
{
  const int64_t n = t.Int(); const long long m = t.Int();
  struct E { int64_t u, v, w; int ok; };
  std::vector<E> es; std::vector<std::vector<int64_t>> elog;
  for (long long i = 0; i < m; i++)
  { E e; e.u = t.Int(); e.v = t.Int(); e.w = t.Int(); e.ok = static_cast<int>(t.Int()); es.push_back(e); elog.push_back({e.u, e.v, e.w, e.ok}); }
  const long long ns = t.Int();
  std::vector<std::pair<int64_t, int64_t>> ss;
  for (long long i = 0; i < ns; i++) { const int64_t s = t.Int(); ss.emplace_back(s, t.Int()); }
  const std::vector<int64_t> gs = t.List<int64_t>(), h = t.List<int64_t>();
  const bool limit = t.Int() != 0; const int api = static_cast<int>(t.Int()), hk = static_cast<int>(t.Int());
  const auto isg = [&](int64_t v) { for (int64_t g : gs) if (g == v) return true; return false; };
  H hash; hash.kind = hk; Eq eq;
  AstarResult<St> res;
  int64_t tag = 0;
  const std::string how = drv::Try([&]
  {
    StatesWithCosts<St> starts;
    for (auto& s : ss) starts.emplace_back(St{s.first, tag++}, drv::Fine(static_cast<double>(s.second)));
    const std::function<bool(const St&)> goal = [&](const St& s) { return isg(s.v); };
    const std::function<double(const St&)> heur = [&](const St& s) { return h.at(static_cast<size_t>(s.v)) >= drv::kInf ? std::numeric_limits<double>::infinity() : drv::Fine(static_cast<double>(h.at(static_cast<size_t>(s.v)))); };
    const std::function<StatesWithCosts<St>(const St&)> kids = [&](const St& s)
    { StatesWithCosts<St> r; for (auto& e : es) if (e.u == s.v && e.ok) r.emplace_back(St{e.v, tag++}, drv::Fine(static_cast<double>(e.w))); return r; };
    const std::function<std::vector<St>(const St&)> kids2 = [&](const St& s)
    { std::vector<St> r; for (auto& e : es) if (e.u == s.v) r.push_back(St{e.v, tag++}); return r; };
    const std::function<bool(const St&, const St&)> ok = [&](const St& a, const St& b)
    { for (auto& e : es) if (e.u == a.v && e.v == b.v) return e.ok != 0; throw std::logic_error("no edge"); };
    const std::function<double(const St&, const St&)> dist = [&](const St& a, const St& b)
    { for (auto& e : es) if (e.u == a.v && e.v == b.v) return drv::Fine(static_cast<double>(e.w)); throw std::logic_error("no edge"); };
    if (api == 0) res = PerformAstarSearch<St, std::vector<St>, H, Eq>(starts, goal, kids, heur, limit, hash, eq);
    else if (api == 1) res = PerformAstarSearch<St, std::vector<St>, H, Eq>(starts, goal, kids2, ok, dist, heur, limit, hash, eq);
    else
    {
      const std::function<double(const St&, const St&)> h2 = [&](const St& a, const St& b) { if (b.v != gs.at(0)) throw std::logic_error("heuristic goal"); return heur(a); };
      res = PerformAstarSearch<St, std::vector<St>, H, Eq>(St{ss.at(0).first, 0}, St{gs.at(0), 0}, kids2, ok, dist, h2, limit, hash, eq);
    }
  });
  std::vector<int64_t> path;
  for (const auto& s : res.Path()) path.push_back(s.v);
  c.Head("api", api, "limit", limit);
  c.Ev("op", "astar", "n", n, "E", elog, "S", ss, "G", gs, "h", h, "how", how, "path", path, "cost", drv::DU(res.PathCost()));
}
int main(int argc, char** argv) { return drv::Main(argc, argv, DoCase, 40); }
