// Trajectories (C27): made from integer waypoints (thousandths), asked at k/4096 of their duration.
#include "drv.hpp"
#include <common_robotics_utilities/time_optimal_trajectory_parametrization.hpp>
using namespace drv;
namespace tt = common_robotics_utilities::time_optimal_trajectory_parametrization;
using V = Eigen::VectorXd;
static std::string Bits(double d) { uint64_t u; memcpy(&u, &d, 8); char b[20]; snprintf(b, 20, "%016lx", static_cast<unsigned long>(u)); return b; }
static std::vector<long long> Micro(const V& v) { std::vector<long long> o; for (ssize_t i = 0; i < v.size(); i++) o.push_back(std::isfinite(v[i]) && std::fabs(v[i]) < 2000 ? std::llround(v[i] * 1e6) : 2000000000LL); return o; }
static V Vec(Tokens& t, long long d, double scale) { V v(d); for (ssize_t i = 0; i < d; i++) v[i] = static_cast<double>(t.Int()) * scale; return v; }
struct Recipe { std::vector<V> path; V vmax, amax; double dev, dt; };
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    std::unique_ptr<tt::PositionVelocityTrajectoryInterface> o[5]; std::vector<Recipe> recipes; long long lineage[5] = {0, 0, 0, 0, 0};
    const auto build = [](const Recipe& r) { return tt::ParametrizePathTOTP(r.path, r.vmax, r.amax, r.dev, r.dt); };
    while (t.Has())
    {
      const std::string op = t.Str(); const auto i = t.Int();
      if (op == "make")
      {
        const bool must = t.Int() != 0; const auto d = t.Int(), n = t.Int(); Recipe r;
        for (long long k = 0; k < n; k++) r.path.push_back(Vec(t, d, 1e-3));
        r.vmax = Vec(t, d, 1e-3); r.amax = Vec(t, d, 1e-3); r.dev = static_cast<double>(t.Int()) * 1e-3; r.dt = static_cast<double>(t.Int()) * 1e-4;
        o[i].reset(); const std::string st = Try([&] { o[i] = build(r); });
        recipes.push_back(r); if (st == "ok") lineage[i] = static_cast<long long>(recipes.size());
        c.Ev("op", op, "i", i, "g", recipes.size(), "must", must, "st", st);
      }
      else if (op == "clone") { const auto j = t.Int(); if (!o[i]) continue; o[j] = o[i]->Clone(); lineage[j] = lineage[i]; c.Ev("op", op, "i", i, "j", j); }
      else if (op == "drop") { o[i].reset(); c.Ev("op", op, "i", i); }
      else if (op == "duration") { if (!o[i]) continue; const double v = o[i]->Duration(); c.Ev("op", op, "i", i, "v", Bits(v)); }
      else
      {
        const bool fresh = op == "fresh"; const auto k = t.Int(); if (!o[i]) continue; const Recipe& r = recipes.at(static_cast<size_t>(lineage[i] - 1)); std::string v; V p, q; bool time = false;
        const std::string st = Try([&] {
          const auto f = fresh ? build(r) : nullptr; const auto& x = fresh ? *f : *o[i];
          const double at = x.Duration() * (static_cast<double>(k) / 4096.0); const auto s = x.GetPositionVelocityTimePoint(at);
          p = s.Position(); q = s.Velocity(); time = s.Time() == at;
          for (ssize_t m = 0; m < p.size(); m++) v += Bits(p[m]); for (ssize_t m = 0; m < q.size(); m++) v += Bits(q[m]); });
        c.Ev("op", "ask", "i", i, "k", k, "st", st, "time", time, "v", v, "pos", Micro(p), "vel", Micro(q), "first", Micro(r.path.front()), "last", Micro(r.path.back()), "fresh", fresh);
      }
    }
  }, 60);
}
