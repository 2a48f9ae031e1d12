// Time-optimal trajectories (C37). Waypoints in whole units, limits in quarters, deviation in
// thousandths; everything is scaled by 2^scale and recorded back in units.
#include "drv.hpp"
#include <common_robotics_utilities/time_optimal_trajectory_parametrization.hpp>
using namespace drv;
namespace tp = common_robotics_utilities::time_optimal_trajectory_parametrization;
static Raw R(double v, double scale) { const double s = std::round(v * scale); if (!(std::fabs(s) < 1e9)) return Raw{"-1000000002"}; return Raw{std::to_string(static_cast<long long>(s))}; }
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c)
  { // dims, waypoints, velocity limits, acceleration limits, deviation, scale, step (microseconds), interval, what is wrong (0 nothing)
    const size_t d = static_cast<size_t>(t.Int()); const auto flat = t.List<long long>(), vm = t.List<long long>(), am = t.List<long long>();
    const auto dev = t.Int(), scale = t.Int(), step = t.Int(), h = t.Int(), wrong = t.Int(); const double u = std::ldexp(1.0, static_cast<int>(scale));
    std::vector<std::vector<long long>> wp; std::vector<Eigen::VectorXd> path; Eigen::VectorXd v(static_cast<long>(d)), a(static_cast<long>(d));
    for (size_t i = 0; i + d <= flat.size(); i += d) { wp.push_back(std::vector<long long>(flat.begin() + static_cast<long>(i), flat.begin() + static_cast<long>(i + d))); Eigen::VectorXd x(static_cast<long>(d)); for (size_t j = 0; j < d; j++) x(static_cast<long>(j)) = u * static_cast<double>(wp.back()[j]); path.push_back(x); }
    for (size_t j = 0; j < d; j++) { v(static_cast<long>(j)) = u * static_cast<double>(vm[j]) / 4; a(static_cast<long>(j)) = u * static_cast<double>(am[j]) / 4; }
    double deviation = u * static_cast<double>(dev) / 1000, dt = static_cast<double>(step) / 1e6;
    if (wrong == 1) v(0) = INFINITY; if (wrong == 2) a(0) = NAN; if (wrong == 3) deviation = INFINITY; if (wrong == 4) dt = NAN; if (wrong == 5) v(0) = NAN; if (wrong == 6) a(0) = INFINITY; if (wrong == 7) deviation = NAN;
    std::vector<std::vector<Raw>> pos, vel; Raw D{"0"};
    const std::string r = Try([&]
    {
      const auto made = wrong == 0 && step == 1000 && dev == 0 ? tp::ParametrizePathTOTP(path, v, a) : tp::ParametrizePathTOTP(path, v, a, deviation, dt);
      const double T = made->Duration(); const auto show = [&] (double at) { const auto p = made->GetPositionVelocityTimePoint(at); pos.push_back({}); vel.push_back({}); for (long j = 0; j < p.Position().size(); j++) { pos.back().push_back(R(p.Position()(j) / u, 1e3)); vel.back().push_back(R(p.Velocity()(j) / u, 1e4)); } };
      D = R(T, 1e4); const long long n = static_cast<long long>(std::ceil(T * 1e4 / static_cast<double>(h) - 0.01));
      for (long long k = 0; k < n && k < 20000; k++) show(k == 0 ? 0.0 : static_cast<double>(k * h) / 1e4 + 1.37e-5);  // not where profiles meet: the code divides by steps of no length there
      show(T);
    });
    c.Head("wp", wp, "vm", vm, "am", am, "dev", dev, "h", h, "bad", wrong != 0, "r", r, "D", D, "pos", pos, "vel", vel);
  });
}
