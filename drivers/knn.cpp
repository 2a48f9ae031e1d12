#include <limits>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
#include "drv.hpp"
#include "ctx.hpp"
using namespace common_robotics_utilities;
using namespace common_robotics_utilities::simple_knearest_neighbors;
static void DoCase(drv::Tokens& t, drv::Case& c)
{
  const std::vector<int64_t> d = t.List<int64_t>();
  const long long lo = t.Int(), hi = t.Int(), K = t.Int(); const int deg = static_cast<int>(t.Int());
  const int ctx = static_cast<int>(t.Int()), api = static_cast<int>(t.Int());
  const std::function<double(const int64_t&, const int&)> fn = [](const int64_t& item, const int& off)
  { return item >= drv::kInf ? std::numeric_limits<double>::infinity() : drv::Fine(static_cast<double>(item)) + off * 0.0; };
  c.Head("d", d, "deg", deg, "ctx", ctx);
  drv::RunInContext(ctx, [&](int)
  {
    std::vector<IndexAndDistance> r;
    const parallelism::DegreeOfParallelism p(deg);
    const size_t a = static_cast<size_t>(lo), b = static_cast<size_t>(hi);
    long long la = lo, lb = hi;
    const std::string how = drv::Try([&]
    {
      switch (api)
      {
        case 0: r = GetKNearestNeighborsInRangeSerial<int64_t, int>(d, a, b, 1, fn, K); break;
        case 1: r = GetKNearestNeighborsInRangeParallel<int64_t, int>(d, a, b, 1, fn, K, p); break;
        case 2: r = GetKNearestNeighborsInRange<int64_t, int>(d, a, b, 1, fn, K, p); break;
        case 3: la = 0; lb = static_cast<long long>(d.size()); r = GetKNearestNeighborsSerial<int64_t, int>(d, 1, fn, K); break;
        case 4: la = 0; lb = static_cast<long long>(d.size()); r = GetKNearestNeighborsParallel<int64_t, int>(d, 1, fn, K, p); break;
        default: la = 0; lb = static_cast<long long>(d.size()); r = GetKNearestNeighbors<int64_t, int>(d, 1, fn, K, p); break;
      }
    });
    std::vector<int64_t> ix; std::vector<drv::Raw> ds;
    for (const auto& x : r) { ix.push_back(x.Index()); ds.push_back(drv::DU(x.Distance())); }
    c.Ev("op", "query", "api", api, "lo", la, "hi", lb, "K", K, "how", how, "ix", ix, "ds", ds);
  });
}
int main(int argc, char** argv) { return drv::Main(argc, argv, DoCase, 40); }
