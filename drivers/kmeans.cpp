// K-means (C23): integer points, |dx|+|dy|, weighted lower median as average.
#include "drv.hpp"
#include "ctx.hpp"
#include <algorithm>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
using namespace drv;
namespace km = common_robotics_utilities::simple_kmeans_clustering;
using common_robotics_utilities::parallelism::DegreeOfParallelism;
using P = std::pair<long long, long long>;
using Ps = std::vector<P>;
static double Dist(const P& a, const P& b) { return Fine(static_cast<double>(std::llabs(a.first - b.first) + std::llabs(a.second - b.second))); }
static long long Med(std::vector<std::pair<long long, double>> v)
{
  std::sort(v.begin(), v.end()); double w = 0, s = 0; for (const auto& x : v) w += x.second;
  for (const auto& x : v) { s += x.second; if (2 * s >= w) return x.first; }
  return 0;
}
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    bool strict = false; std::mutex mu; std::vector<std::vector<std::pair<P, long long>>> avgs; bool record = true;
    const std::function<P(const Ps&, const std::vector<double>&)> avg = [&](const Ps& m, const std::vector<double>& w) {
      if (m.size() != w.size()) _exit(3);
      std::vector<std::pair<P, long long>> call; std::vector<std::pair<long long, double>> xs, ys;
      for (size_t i = 0; i < m.size(); i++) { call.emplace_back(m[i], std::llround(w[i] / Unit())); xs.emplace_back(m[i].first, w[i]); ys.emplace_back(m[i].second, w[i]); }
      { std::lock_guard<std::mutex> lock(mu); if (record) avgs.push_back(call); }
      if (m.empty() && strict) throw std::invalid_argument("nothing to average");
      return P(Med(xs), Med(ys)); };
    const std::function<P(const Ps&)> avg1 = [&](const Ps& m) { return avg(m, std::vector<double>(m.size(), Fine(1.0))); };
    const std::function<double(const P&, const P&)> dist = Dist;
    const auto points = [&] { const auto n = t.Int(); Ps p; for (long long i = 0; i < n; i++) { const auto x = t.Int(), y = t.Int(); p.emplace_back(x, y); } return p; };
    while (t.Has())
    {
      const std::string op = t.Str(); avgs.clear(); strict = false; record = true;
      if (op == "conv")
      {
        const auto a = t.List<int32_t>(), b = t.List<int32_t>(); bool out = false;
        const std::string st = Try([&] { out = km::CheckForConvergence(a, b); });
        c.Ev("op", op, "a", a, "b", b, "st", st, "out", out);
        continue;
      }
      const Ps items = points();
      if (op == "round")
      {
        const Ps centers = points(); const DegreeOfParallelism par(static_cast<int32_t>(t.Int())); std::vector<int32_t> out;
        const std::string st = Try([&] { out = km::PerformSingleClusteringIteration<P>(items, centers, dist, par); });
        c.Ev("op", op, "items", items, "centers", centers, "st", st, "out", out);
        continue;
      }
      const auto wi = t.List<int>(); std::vector<double> w; for (const int x : wi) w.push_back(Fine(x)); const auto k = static_cast<int32_t>(t.Int());
      if (op == "centers")
      {
        const auto labels = t.List<int32_t>(); const DegreeOfParallelism par(static_cast<int32_t>(t.Int())); Ps out;
        const std::string st = Try([&] { out = km::ComputeClusterCentersWeighted<P>(items, w, labels, avg, k, par); });
        c.Ev("op", op, "items", items, "w", wi, "k", k, "labels", labels, "st", st, "out", out, "avgs", avgs);
      }
      else
      {
        strict = t.Int() != 0; const bool prelim = t.Int() != 0, plain = t.Int() != 0; const auto seed = t.Int(); const auto threads = static_cast<int32_t>(t.Int()); const auto ctx = static_cast<int>(t.Int());
        std::vector<int32_t> out, out2; std::string st2;
        const auto go = [&](int32_t n, std::vector<int32_t>& o) { return Try([&] {
          const DegreeOfParallelism par(n);
          o = plain ? km::Cluster<P>(items, dist, avg1, k, seed, prelim, par) : km::ClusterWeighted<P>(items, w, dist, avg, k, seed, prelim, par); }); };
        const std::string st = go(1, out);
        record = false;
        RunInContext(ctx, [&](int) { std::vector<int32_t> o; const std::string s = go(threads, o); std::lock_guard<std::mutex> lock(mu); if (st2.empty() || s != st || o != out) { st2 = s; out2 = o; } });
        // only the last rounds of averaging are of interest
        if (k > 0 && avgs.size() > static_cast<size_t>(3 * k)) avgs.erase(avgs.begin(), avgs.end() - 3 * k);
        c.Ev("op", op, "items", items, "w", plain ? std::vector<int>(items.size(), 1) : wi, "k", k, "strict", strict, "prelim", prelim, "seed", seed, "threads", threads, "st", st, "out", out, "st2", st2, "out2", out2, "avgs", avgs);
      }
    }
  });
}
