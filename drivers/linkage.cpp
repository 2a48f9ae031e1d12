// Hierarchical clustering (C22): tables of integer distances (1000000000 stands for infinite).
#include "drv.hpp"
#include "ctx.hpp"
#include <deque>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
using namespace drv;
namespace hc = common_robotics_utilities::simple_hierarchical_clustering;
using common_robotics_utilities::parallelism::DegreeOfParallelism;
struct Val { int id; explicit Val(int i) : id(i) {} };  // not default-constructible
using Table = std::vector<std::vector<long long>>;
static double Real(long long v) { return v >= kInf ? std::numeric_limits<double>::infinity() : Fine(static_cast<double>(v)); }
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    while (t.Has())
    {
      const std::string op = t.Str();
      const auto rows = t.Int(), cols = t.Int();
      Table D(static_cast<size_t>(rows));
      for (auto& row : D) for (long long j = 0; j < cols; j++) row.push_back(t.Int());
      if (op == "table")
      {
        const auto one = t.Int(); const auto threads = t.Int(); const auto ctx = static_cast<int>(t.Int());
        Eigen::MatrixXd m; std::vector<Val> a, b; std::string st = "none"; std::mutex mu;
        for (int i = 0; i < rows; i++) a.emplace_back(i);
        for (int i = 0; i < cols; i++) b.emplace_back(i);
        const std::function<double(const Val&, const Val&)> f = [&](const Val& x, const Val& y) { return Real(D.at(static_cast<size_t>(x.id)).at(static_cast<size_t>(y.id))); };
        RunInContext(ctx, [&](int) {
          Eigen::MatrixXd r;
          const std::string s = Try([&] {
            r = one ? common_robotics_utilities::math::BuildPairwiseDistanceMatrix<Val>(a, f, DegreeOfParallelism(static_cast<int32_t>(threads)))
                    : common_robotics_utilities::math::BuildPairwiseDistanceMatrix<Val, Val>(a, b, f, DegreeOfParallelism(static_cast<int32_t>(threads))); });
          std::lock_guard<std::mutex> lock(mu); m = r; st = s; });
        std::vector<std::vector<Raw>> out(static_cast<size_t>(m.rows()));
        for (ssize_t i = 0; i < m.rows(); i++) for (ssize_t j = 0; j < m.cols(); j++) out[static_cast<size_t>(i)].push_back(drv::DU(m(i, j)));
        c.Ev("op", op, "D", D, "st", st, "out", out);
        continue;
      }
      const auto n = t.Int(); const auto mode = t.Int(); const auto max = t.Int(); const bool single = t.Int() != 0;
      const auto threads = static_cast<int32_t>(t.Int()); const auto ctx = static_cast<int>(t.Int());
      Eigen::MatrixXd m(rows, cols);
      for (ssize_t i = 0; i < rows; i++) for (ssize_t j = 0; j < cols; j++) m(i, j) = Real(D[static_cast<size_t>(i)][static_cast<size_t>(j)]);
      const auto strategy = single ? hc::ClusterStrategy::SINGLE_LINK : hc::ClusterStrategy::COMPLETE_LINK;
      const std::function<double(const Val&, const Val&)> f = [&](const Val& x, const Val& y) { return Real(D.at(static_cast<size_t>(x.id)).at(static_cast<size_t>(y.id))); };
      std::mutex mu;
      RunInContext(ctx, [&](int) {
        std::vector<std::vector<int64_t>> out; double d = Fine(-1);
        const DegreeOfParallelism par(threads);
        const std::string st = Try([&] {
          const auto ids = [&](const auto& r) { d = r.FinalClosestDistance(); for (const auto& k : r.Clusters()) { out.emplace_back(); for (const auto& v : k) out.back().push_back(v.id); } };
          std::vector<Val> data; for (int i = 0; i < n; i++) data.emplace_back(i);
          if (mode == 0) { const auto r = hc::IndexClusterWithDistanceMatrix(m, Real(max), strategy, par); out = r.Clusters(); d = r.FinalClosestDistance(); }
          else if (mode == 1) ids(hc::ClusterWithDistanceMatrix<Val>(data, m, Real(max), strategy, par));
          else if (mode == 2) { const auto r = hc::IndexCluster<Val>(data, f, Real(max), strategy, par); out = r.Clusters(); d = r.FinalClosestDistance(); }
          else ids(hc::Cluster<Val>(data, f, Real(max), strategy, par));
        });
        std::lock_guard<std::mutex> lock(mu);
        c.Ev("op", op, "n", n, "rows", rows, "cols", cols, "D", D, "max", max, "single", single, "mode", mode, "threads", threads, "st", st, "out", out, "d", drv::DU(d));
      });
    }
  });
}
