// Random rotations and normal distributions (C36). Positions are in sixteenths of a standard
// deviation from the mean; 1000 and -1000 stand for infinite bounds.
#include "drv.hpp"
#include <common_robotics_utilities/gaussian_distributions.hpp>
#include <common_robotics_utilities/random_rotation_generator.hpp>
#include <random>
using namespace drv;
namespace gd = common_robotics_utilities::gaussian_distributions;
namespace rg = common_robotics_utilities::random_rotation_generator;
static Raw R(double v, double scale) { const double s = std::round(v * scale); if (!(std::fabs(s) < 1e9)) return Raw{"-1000000002"}; return Raw{std::to_string(static_cast<long long>(s))}; }
static double At(double mean, double sd, long long k) { return k >= 1000 ? INFINITY : k <= -1000 ? -INFINITY : mean + sd * static_cast<double>(k) / 16.0; }
template<typename G> static void Draw(Case& c, double mean, double sd, long long lo, long long hi, unsigned seed, long long n)
{
  const double a = At(mean, sd, lo), b = At(mean, sd, hi), eps = 1e-9 * sd;
  gd::TruncatedGaussianDistribution d(mean, sd, a, b); G g(seed);
  const long long l = std::max(lo, -112ll), h = std::min(hi, 112ll), step = std::max(1ll, (h - l) / 40);
  std::vector<long long> cuts; for (long long k = l; k <= h; k += step) cuts.push_back(k);
  std::vector<long long> below(cuts.size(), 0); long long out = 0;
  for (long long i = 0; i < n; i++)
  {
    const double x = d(g);
    if (!(x >= a - eps && x <= b + eps)) out++;
    for (size_t k = 0; k < cuts.size(); k++) if (x < At(mean, sd, cuts[k])) below[k]++;
  }
  c.Ev("op", "draw", "lo", lo, "hi", hi, "n", n, "out", out, "cuts", cuts, "below", below);
}
using Q = Eigen::Quaterniond;
template<typename G> static void Rotations(Case& c, const std::string& kind, unsigned seed, const Q& a, const Q& b)
{
  rg::RandomRotationGenerator gen; G g(seed); std::uniform_real_distribution<double> u(0.0, 1.0); const std::function<double()> f = [&] { return u(g); };
  const auto euler = [] (const Eigen::Vector3d& e) { return Q(Eigen::AngleAxisd(e(2), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(e(1), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(e(0), Eigen::Vector3d::UnitX())); };
  const int n = 40000; double m1[9] = {}, m2[81] = {}, m3[10] = {}, q1[4] = {}, q2[16] = {}; long long angle[12] = {}; int bad = 0; std::vector<long long> roll(8, 0), yaw(8, 0);
  const auto octant = [] (double a) { const double t = (a / (2.0 * M_PI)); return static_cast<size_t>(std::min(7.0, std::floor((t - std::floor(t)) * 8.0))); };
  const auto angles = [&] (const Eigen::Vector3d& e) { roll[octant(e(0))]++; yaw[octant(e(2))]++; return euler(e); };
  static const int T[10][3] = {{1, 5, 9}, {2, 6, 7}, {3, 4, 8}, {1, 6, 8}, {2, 4, 9}, {3, 5, 7}, {1, 1, 1}, {1, 2, 3}, {1, 5, 5}, {9, 9, 1}};
  for (int s = 0; s < n; s++)
  {
    Q q;
    if (kind == "quat") q = gen.GetQuaternion(g);
    else if (kind == "rawquat") { const auto v = gen.GetRawQuaternion(g); q = Q(v.at(3), v.at(0), v.at(1), v.at(2)); }
    else if (kind == "squat") q = rg::RandomRotationGenerator::GenerateUniformRandomQuaternion(f);
    else if (kind == "euler") q = angles(gen.GetEulerAngles(g));
    else if (kind == "raweuler") { const auto v = gen.GetRawEulerAngles(g); q = angles(Eigen::Vector3d(v.at(0), v.at(1), v.at(2))); }
    else q = angles(rg::RandomRotationGenerator::GenerateUniformRandomEulerAngles(f));
    if (!(std::fabs(q.norm() - 1.0) < 1e-9)) bad++;
    for (int i = 0; i < 4; i++) { q1[i] += q.coeffs()(i) / n; for (int j = 0; j < 4; j++) q2[4 * i + j] += q.coeffs()(i) * q.coeffs()(j) / n; }
    const Eigen::Matrix3d M = (a * q * b).toRotationMatrix(); double e[9]; for (int i = 0; i < 9; i++) e[i] = M(i / 3, i % 3);
    for (int i = 0; i < 9; i++) { m1[i] += e[i] / n; for (int j = 0; j < 9; j++) m2[9 * i + j] += e[i] * e[j] / n; }
    for (int i = 0; i < 10; i++) m3[i] += e[T[i][0] - 1] * e[T[i][1] - 1] * e[T[i][2] - 1] / n;
    const double th = std::acos(std::max(-1.0, std::min(1.0, (M.trace() - 1.0) / 2.0)));
    for (int k = 0; k < 12; k++) if (k == 11 || th <= M_PI * (k + 1) / 12.0) angle[k]++;
  }
  std::vector<Raw> r1, r2, r3; for (double x : m1) r1.push_back(R(x, 1e4)); for (double x : m2) r2.push_back(R(x, 1e4)); for (double x : m3) r3.push_back(R(x, 1e4));
  std::vector<Raw> s1, s2; for (double x : q1) s1.push_back(R(x, 1e4)); for (double x : q2) s2.push_back(R(x, 1e4));
  c.Ev("op", "rot", "sphere", kind.find("quat") != std::string::npos, "q1", s1, "q2", s2, "roll", roll, "yaw", yaw, "kind", kind, "norm", bad, "m1", r1, "m2", r2, "m3", r3, "angle", std::vector<long long>(angle, angle + 12));
}
static Raw V(const Q& q) { return Raw{J(std::vector<Raw>{R(q.x(), 1e8), R(q.y(), 1e8), R(q.z(), 1e8), R(q.w(), 1e8)})}; }
static Raw V(const Eigen::Vector3d& q) { return Raw{J(std::vector<Raw>{R(q.x(), 1e8), R(q.y(), 1e8), R(q.z(), 1e8)})}; }
static Raw V(const std::vector<double>& v) { std::vector<Raw> o; for (double x : v) o.push_back(R(x, 1e8)); return Raw{J(o)}; }
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c)
  {
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "draw") { const double mean = t.Dbl(), sd = t.Dbl(); const auto lo = t.Int(), hi = t.Int(), seed = t.Int(), n = t.Int(); if (seed % 2) Draw<std::mt19937_64>(c, mean, sd, lo, hi, static_cast<unsigned>(seed), n); else Draw<std::mt19937>(c, mean, sd, lo, hi, static_cast<unsigned>(seed), n); }
      else if (op == "point")
      { // all of the distribution at one value: mean, deviation, bounds, in quarters
        const double mean = t.Dbl(), sd = t.Dbl(), lo = t.Dbl(), hi = t.Dbl(); const auto want = t.Int(); std::vector<Raw> v; std::mt19937_64 g(1);
        const std::string r = Try([&] { gd::TruncatedGaussianDistribution d(mean / 4, sd / 4, lo / 4, hi / 4); for (int i = 0; i < 3; i++) v.push_back(D(d(g), 4)); });
        c.Ev("op", op, "want", want, "r", r, "v", v);
      }
      else if (op == "refuse")
      {
        const auto w = t.Int(); const double m = t.Dbl(), s = t.Dbl(), lo = t.Dbl(), hi = t.Dbl(), x = t.Dbl(), y = t.Dbl(); std::string r = "none";
        if (w == 0) r = Try([&] { gd::TruncatedGaussianDistribution d(m, s, lo, hi); (void)d; });
        else if (w == 1) r = Try([&] { gd::EvaluateTruncatedGaussianCDF(m, lo, hi, s, x); });
        else if (w == 2) r = Try([&] { gd::EvaluateTruncatedGaussianPDF(m, lo, hi, s, x); });
        else if (w == 3) r = Try([&] { gd::IntegrateGaussian(m, s, x, y); });
        else if (w == 4) r = Try([&] { gd::IntegrateTruncatedGaussian(m, lo, hi, s, x, y); });
        else { const auto rows = static_cast<long>(lo), cols = static_cast<long>(hi); r = Try([&] { gd::MultivariteGaussianDistribution d(Eigen::VectorXd::Zero(static_cast<long>(m)), Eigen::MatrixXd::Identity(rows, cols)); (void)d; }); }
        c.Ev("op", op, "w", w, "r", r);
      }
      else if (op == "eval")
      {
        const double mean = t.Dbl(), sd = t.Dbl(); const auto lo = t.Int(), hi = t.Int(), v = t.Int(), v2 = t.Int(); const double a = At(mean, sd, lo), b = At(mean, sd, hi), x = At(mean, sd, v), y = At(mean, sd, v2);
        c.Ev("op", op, "lo", lo, "hi", hi, "v", v, "v2", v2, "cdf", R(gd::EvaluateGaussianCDF(mean, sd, x), 1e6), "pdf", R(gd::EvaluateGaussianPDF(mean, sd, x) * sd, 1e6), "integ", R(gd::IntegrateGaussian(mean, sd, x, y), 1e6),
             "tcdf", R(gd::EvaluateTruncatedGaussianCDF(mean, a, b, sd, x), 1e4), "tpdf", R(gd::EvaluateTruncatedGaussianPDF(mean, a, b, sd, x) * sd, 1e3), "tinteg", R(gd::IntegrateTruncatedGaussian(mean, a, b, sd, x, y), 1e4));
      }
      else if (op == "mvn")
      {
        const auto seed = static_cast<unsigned>(t.Int()); const auto mean = t.List<long long>(); const long d = static_cast<long>(mean.size()); const auto flat = t.List<long long>(), nulls = t.List<long long>();
        Eigen::VectorXd m(d); Eigen::MatrixXd C(d, d); std::vector<std::vector<long long>> cov;
        for (long i = 0; i < d; i++) { m(i) = static_cast<double>(mean[static_cast<size_t>(i)]); cov.push_back({}); for (long j = 0; j < d; j++) { cov.back().push_back(flat[static_cast<size_t>(i * d + j)]); C(i, j) = static_cast<double>(cov.back().back()); } }
        gd::MultivariteGaussianDistribution dist(m, C); std::mt19937_64 g(seed); const int n = 20000;
        Eigen::VectorXd avg = Eigen::VectorXd::Zero(d); Eigen::MatrixXd got = Eigen::MatrixXd::Zero(d, d); std::vector<double> nul(nulls.size() / static_cast<size_t>(d), 0.0); std::vector<std::vector<long long>> marg;
        std::vector<long> sq; for (long i = 0; i < d; i++) if (C(i, i) > 0) { sq.push_back(i); marg.push_back(std::vector<long long>(13, 0)); }
        for (int s = 0; s < n; s++)
        {
          const Eigen::VectorXd x = dist(g) - m; avg += x / n; got += x * x.transpose() / n;
          for (size_t v = 0; v < nul.size(); v++) { double p = 0; for (long i = 0; i < d; i++) p += x(i) * static_cast<double>(nulls[v * static_cast<size_t>(d) + static_cast<size_t>(i)]); nul[v] = std::max(nul[v], std::fabs(p)); }
          for (size_t v = 0; v < sq.size(); v++) for (long k = 0; k < 13; k++) if (x(sq[v]) / std::sqrt(C(sq[v], sq[v])) < static_cast<double>(k - 6) / 2.0) marg[v][static_cast<size_t>(k)]++;
        }
        std::vector<Raw> a; std::vector<std::vector<Raw>> o; std::vector<Raw> z; for (long i = 0; i < d; i++) { a.push_back(R(avg(i) + m(i), 1e3)); o.push_back({}); for (long j = 0; j < d; j++) o.back().push_back(R(got(i, j), 1e3)); } for (double p : nul) z.push_back(R(p, 1e6));
        c.Ev("op", op, "mean", mean, "cov", cov, "avg", a, "got", o, "null", z, "marg", marg);
      }
      else if (op == "rot")
      {
        const std::string kind = t.Str(); const auto seed = static_cast<unsigned>(t.Int()); double v[8]; for (double& x : v) x = t.Dbl();
        const Q a = Q(v[0], v[1], v[2], v[3]).normalized(), b = Q(v[4], v[5], v[6], v[7]).normalized();
        if (seed % 2) Rotations<std::mt19937_64>(c, kind, seed, a, b); else Rotations<std::mt19937>(c, kind, seed, a, b);
      }
      else if (op == "raw")
      { // the same generator state gives the same rotation, as an object and as numbers
        const auto seed = static_cast<unsigned>(t.Int()); std::mt19937_64 g(seed), h(seed); rg::RandomRotationGenerator x, y;
        for (int i = 0; i < 4; i++) { const Raw q = V(x.GetQuaternion(g)); c.Ev("op", op, "a", q, "b", V(y.GetRawQuaternion(h))); const Raw e = V(x.GetEulerAngles(g)); c.Ev("op", op, "a", e, "b", V(y.GetRawEulerAngles(h))); }
      }
    }
  }, 60);
}
