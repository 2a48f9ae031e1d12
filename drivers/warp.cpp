// Warping cost of sequences and Hausdorff distance of sets (C24) from tables of distances.
#include "drv.hpp"
#include "ctx.hpp"
#include <deque>
#include <common_robotics_utilities/simple_dtw.hpp>
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
using namespace drv;
namespace dtw = common_robotics_utilities::simple_dtw;
namespace hd = common_robotics_utilities::simple_hausdorff_distance;
using common_robotics_utilities::parallelism::DegreeOfParallelism;
struct A { int id; }; struct B { int id; };
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    using E = dtw::SimpleDTW<A, B, std::vector<A>, std::deque<B>>;
    E kept; std::mutex mu;
    while (t.Has())
    {
      const std::string op = t.Str(); const auto n = t.Int(), m = t.Int();
      std::vector<A> a; std::vector<B> b; for (int i = 0; i < n; i++) a.push_back(A{i}); for (int i = 0; i < m; i++) b.push_back(B{i});
      const std::deque<B> q(b.begin(), b.end());
      std::vector<std::vector<long long>> T(static_cast<size_t>(n)); for (auto& r : T) for (int j = 0; j < m; j++) r.push_back(t.Int());
      const std::function<double(const A&, const B&)> f = [&](const A& x, const B& y) { return Fine(static_cast<double>(T.at(static_cast<size_t>(x.id)).at(static_cast<size_t>(y.id)))); };
      const auto mode = t.Int();
      if (op == "warp")
      {
        double out = Fine(-1);
        const std::string st = Try([&] {
          if (mode == 0) out = dtw::EvaluateWarpingCost<A, B>(a, b, f);
          else if (mode == 1) out = kept.EvaluateWarpingCost(a, q, f);
          else if (mode == 2) { kept = E(t.Int(), t.Int()); out = kept.EvaluateWarpingCost(a, q, f); }
          else { E copy(kept); out = copy.EvaluateWarpingCost(a, q, f); if (copy.EvaluateWarpingCost(a, q, f) != out) out = Fine(-7); } });
        c.Ev("op", op, "n", n, "m", m, "rows", n, "cols", m, "T", T, "mode", mode, "st", st, "out", drv::DU(out));
      }
      else
      {
        const auto rows = t.Int(), cols = t.Int(); const auto threads = static_cast<int32_t>(t.Int()); const auto ctx = static_cast<int>(t.Int());
        Eigen::MatrixXd mat = Eigen::MatrixXd::Constant(rows, cols, Fine(3.0)); for (int i = 0; i < n && i < rows; i++) for (int j = 0; j < m && j < cols; j++) mat(i, j) = Fine(static_cast<double>(T[static_cast<size_t>(i)][static_cast<size_t>(j)]));
        const DegreeOfParallelism par(threads);
        RunInContext(ctx, [&](int) {
          double out = Fine(-1);
          const std::string st = Try([&] {
            if (mode == 0) out = hd::ComputeDistance<A, B>(a, b, f, par);
            else if (mode == 1) out = hd::ComputeDistance<A, B>(a, b, mat, par);
            else if (mode == 2) out = hd::ComputeDistance<A, B, std::vector<A>, std::deque<B>>(a, q, f, par);
            else out = hd::ComputeDistance<A, B, std::vector<A>, std::deque<B>>(a, q, mat, par); });
          std::lock_guard<std::mutex> lock(mu);
          c.Ev("op", op, "n", n, "m", m, "rows", mode % 2 ? rows : n, "cols", mode % 2 ? cols : m, "T", T, "mode", mode, "st", st, "out", drv::DU(out)); });
      }
    }
  });
}
