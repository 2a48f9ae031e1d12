// Angles of joints that turn without end (C30). An angle is a number of units of pi/512.
#include "drv.hpp"
#include <common_robotics_utilities/math.hpp>
using namespace drv;
namespace m = common_robotics_utilities::math;
constexpr double kN = 512.0;
static double A(long long k) { return static_cast<double>(k) * M_PI / kN; }
static Raw U(double v, double scale = 1.0)
{
  const double u = v * kN / M_PI * scale, r = std::round(u);
  if (!(std::fabs(u - r) < 1e-4) || std::fabs(r) > 9e8) return Raw{"-1000000002"};
  return Raw{std::to_string(static_cast<long long>(r))};
}
static bool In(double v) { return v >= -M_PI && v < M_PI; }
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "wrap")
      {
        const auto a = t.Int(), ulps = t.Int(); double x = A(a);
        for (auto k = ulps; k > 0; k--) x = std::nextafter(x, INFINITY);
        for (auto k = ulps; k < 0; k++) x = std::nextafter(x, -INFINITY);
        const double r = m::EnforceContinuousRevoluteBounds(x); c.Ev("op", op, "a", a, "r", U(r), "inr", In(r));
      }
      else if (op == "signed") { const auto a = t.Int(), b = t.Int(); const double r = m::ContinuousRevoluteSignedDistance(A(a), A(b)); c.Ev("op", op, "a", a, "b", b, "r", U(r), "inr", In(r), "zero", r == 0.0); }
      else if (op == "dist") { const auto a = t.Int(), b = t.Int(); c.Ev("op", op, "a", a, "b", b, "r", U(m::ContinuousRevoluteDistance(A(a), A(b))), "r2", U(m::ContinuousRevoluteDistance(A(b), A(a)))); }
      else if (op == "add") { const auto a = t.Int(), b = t.Int(); const double r = m::AddContinuousRevoluteValues(A(a), A(b)); c.Ev("op", op, "a", a, "b", b, "r", U(r), "inr", In(r)); }
      else if (op == "range") { const auto a = t.Int(), b = t.Int(); const double r = m::GetContinuousRevoluteRange(A(a), A(b)); c.Ev("op", op, "a", a, "b", b, "r", U(r), "zero", r == 0.0); }
      else if (op == "inrange") { const auto a = t.Int(), b = t.Int(), x = t.Int(); c.Ev("op", op, "a", a, "b", b, "x", x, "v", m::CheckInContinuousRevoluteRange(A(a), A(b), A(x))); }
      else if (op == "inbounds") { const auto a = t.Int(), b = t.Int(), x = t.Int(); c.Ev("op", op, "a", a, "b", b, "x", x, "v", m::CheckInContinuousRevoluteBounds(A(a), A(b), A(x))); }
      // both ends belong to a range
      else if (op == "ends") { const auto a = t.Int(), b = t.Int(); c.Ev("op", op, "a", a, "b", b, "v", m::CheckInContinuousRevoluteBounds(A(a), A(b), A(a)) && m::CheckInContinuousRevoluteBounds(A(a), A(b), A(b)) && m::CheckInContinuousRevoluteRange(A(a), 0.0, A(a))); }
      else if (op == "interp") { const auto a = t.Int(), b = t.Int(), n = t.Int(); const double r = m::InterpolateContinuousRevolute(A(a), A(b), static_cast<double>(n) / 8.0); c.Ev("op", op, "a", a, "b", b, "n", n, "r", U(r), "inr", In(r)); }
      else if (op == "small")
      {
        // two angles that differ by s * 2^-k; answers in millionths of that unit
        const auto a = t.Int(), s = t.Int(), k = t.Int(); const double unit = std::ldexp(1.0, -static_cast<int>(k)), x = A(a), d = static_cast<double>(s) * unit, y = x + d;
        const auto mic = [&](double v) { const double r = std::round(v / unit * 1e6); return std::fabs(r) < 1e9 ? Raw{std::to_string(static_cast<long long>(r))} : Raw{"-1000000002"}; };
        const auto from = [&](double v) { return mic(std::remainder(v - x, 2 * M_PI)); };
        const double w = std::ldexp(1.0, -2 * static_cast<int>(k));
        c.Ev("op", op, "a", a, "s", s, "k", k, "signed", mic(m::ContinuousRevoluteSignedDistance(x, y)), "back", mic(m::ContinuousRevoluteSignedDistance(y, x)), "dist", mic(m::ContinuousRevoluteDistance(x, y)),
             "range", mic(s > 0 ? m::GetContinuousRevoluteRange(x, y) : m::GetContinuousRevoluteRange(y, x)), "half", from(m::InterpolateContinuousRevolute(x, y, 0.5)), "add", from(m::AddContinuousRevoluteValues(x, d)),
             "avg", from(m::AverageContinuousRevolute({x, y}, {})), "wavg", from(m::AverageContinuousRevolute({y, x}, {w, 3 * w})),
             "in", m::CheckInContinuousRevoluteBounds(s > 0 ? x : y, s > 0 ? y : x, x + 0.5 * d), "out", m::CheckInContinuousRevoluteBounds(s > 0 ? x : y, s > 0 ? y : x, x - d) || m::CheckInContinuousRevoluteBounds(s > 0 ? x : y, s > 0 ? y : x, y + d));
      }
      else if (op == "avg")
      {
        const auto as = t.List(), w = t.List(); std::vector<double> x, y; double r = 0, total = 0;
        for (const auto k : as) x.push_back(A(k));
        for (const auto k : w) { y.push_back(k * 0.25); total += std::abs(k); }
        if (w.empty()) total = static_cast<double>(as.size());
        const std::string st = Try([&] { r = m::AverageContinuousRevolute(x, y); });
        c.Ev("op", op, "as", as, "w", w, "st", st, "r", U(r, total), "inr", In(r), "total", static_cast<long long>(total));
      }
    }
  });
}
