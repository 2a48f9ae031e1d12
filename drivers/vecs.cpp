// Vectors, averages, interpolation, projections and planes (C31); distance tables (C32).
#include "drv.hpp"
#include <common_robotics_utilities/math.hpp>
#include <deque>
#include <atomic>
#include <thread>
using namespace drv;
namespace m = common_robotics_utilities::math;
namespace par = common_robotics_utilities::parallelism;
using V = std::vector<double>; using X = Eigen::VectorXd;
// a number that should be whole up to rounding
static Raw R(double v) { const double r = std::round(v); if (!(std::fabs(v - r) < 1e-5 * std::max(1.0, std::fabs(v) * 1e-4)) || std::fabs(r) > 1e9) return Raw{"-1000000002"}; return Raw{std::to_string(static_cast<long long>(r))}; }
static Raw Micro(double v) { const double r = std::round(v * 1e6); if (!(std::fabs(r) < 2e9)) return Raw{"-1000000002"}; return Raw{std::to_string(static_cast<long long>(r))}; }
static double SignSq(double v) { return v * std::fabs(v); }
template<typename C> static Raw Exact(const C& v, double s = 1) { std::string o; for (long i = 0; i < static_cast<long>(v.size()); i++) o += (i ? "," : "") + D(v[i], s).s; return Raw{"[" + o + "]"}; }
template<typename C> static Raw Whole(const C& v, double s = 1) { std::string o; for (long i = 0; i < static_cast<long>(v.size()); i++) o += (i ? "," : "") + R(v[i] * s).s; return Raw{"[" + o + "]"}; }
using L = std::vector<long long>;
// Vectors are given in a unit that is a power of two; weights in another.
static double U1 = 1, U2 = 1, W1 = 1;
static V Vec(const L& l) { V v; for (const auto k : l) v.push_back(U1 * static_cast<double>(k)); return v; }
static X Xd(const L& l) { X x(static_cast<long>(l.size())); for (size_t i = 0; i < l.size(); i++) x[static_cast<long>(i)] = U1 * static_cast<double>(l[i]); return x; }
static double SqN(const L& l) { double s = 0; for (auto k : l) s += static_cast<double>(k * k); return s; }
template<typename A> static std::string Both(const L& a, const L& b, A& out, const std::function<A()>& f) { (void)a; (void)b; return Try([&] { out = f(); }); }
static Raw Table(const Eigen::MatrixXd& t) { std::string o; for (long i = 0; i < t.rows(); i++) { o += i ? ",[" : "["; for (long j = 0; j < t.cols(); j++) o += (j ? "," : "") + DU(t(i, j)).s; o += "]"; } return Raw{"[" + o + "]"}; }
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    U1 = Pow2(); U2 = U1 * U1; W1 = std::ldexp(1.0, -3 * static_cast<int>((Hash() >> 17) % 12));
    const auto list = [&] { return t.List<long long>(); };
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "un")
      {
        const L a = list(); const auto k = t.Int(); const V v = Vec(a);
        c.Ev("op", op, "a", a, "k", k, "sq", D(m::SquaredNorm(v) / U2), "norm", R(SignSq(m::Norm(v)) / U2), "abs", Exact(m::Abs(v), 1 / U1), "mul", Exact(m::Multiply(v, static_cast<double>(k)), 1 / U1),
             "div", Exact(m::Divide(v, std::ldexp(1.0, static_cast<int>(k))), std::ldexp(1.0, static_cast<int>(k)) / U1), "add", Exact(m::Add(v, U1 * static_cast<double>(k)), 1 / U1), "sub", Exact(m::Sub(v, U1 * static_cast<double>(k)), 1 / U1), "sum", D(m::Sum(v), 1 / U1));
      }
      else if (op == "bin")
      {
        // the quotient is asked for a*b / b
        const L a = list(), b = list(); const V v = Vec(a), w = Vec(b); V r, ab; double d = 0; const bool same = a.size() == b.size();
        if (same) for (size_t i = 0; i < a.size(); i++) ab.push_back(v[i] * w[i]); else ab = v;
        for (const std::string f : {"mul", "div", "add", "sub", "sqd", "dist", "sqx", "distx"})
        {
          d = 0; r.clear();
          const std::string st = Try([&] {
            if (f == "mul") r = m::Multiply(v, w); else if (f == "div") r = m::Divide(ab, w); else if (f == "add") r = m::Add(v, w); else if (f == "sub") r = m::Sub(v, w);
            else if (f == "sqd") d = m::SquaredDistance(v, w); else if (f == "dist") d = m::Distance(v, w); else if (f == "sqx") d = m::SquaredDistance(Xd(a), Xd(b)); else d = m::Distance(Xd(a), Xd(b)); });
          c.Ev("op", op, "f", f, "a", a, "b", b, "st", st, "r", Exact(r, f == "mul" ? 1 / U2 : 1 / U1), "d", f[0] == 'd' ? R(SignSq(d) / U2) : D(d / U2), "neg", std::signbit(d));
        }
      }
      else if (op == "fixed")
      {
        const L a = list(), b = list(); const auto th = t.Int(), k = t.Int(); const double ratio = static_cast<double>(k) / 8.0;
        const Eigen::Vector4d p = Xd(a), q = Xd(b); const Eigen::Vector3d u = p.head<3>(), v = q.head<3>(); const Eigen::Vector2d s = p.head<2>(), w = q.head<2>();
        const double T = U1 * static_cast<double>(th) / 2.0;
        c.Ev("op", op, "a", a, "b", b, "th", th, "k", k, "eq3", m::Equal3d(u, v), "eq4", m::Equal4d(p, q), "near3", m::CloseEnough(u, v, T), "near1", m::CloseEnough(p[0], q[0], T), "sq2", D(m::SquaredDistance(s, w) / U2), "sq3", D(m::SquaredDistance(u, v) / U2),
             "d2", R(SignSq(m::Distance(s, w)) / U2), "d3", R(SignSq(m::Distance(u, v)) / U2), "i1", D(m::Interpolate(p[0], q[0], ratio), 8 / U1), "i3", Exact(m::Interpolate3d(u, v, ratio), 8 / U1), "i4", Exact(m::Interpolate4d(p, q, ratio), 8 / U1));
      }
      else if (op == "interp")
      {
        const L a = list(), b = list(); const auto k = t.Int(); const double ratio = static_cast<double>(k) / 8.0; V r; X x;
        const std::string st = Try([&] { r = m::Interpolate(Vec(a), Vec(b), ratio); }), stx = Try([&] { x = m::InterpolateXd(Xd(a), Xd(b), ratio); });
        c.Ev("op", op, "a", a, "b", b, "k", k, "st", st, "stx", stx, "r", Exact(r, 8 / U1), "x", Exact(x, 8 / U1));
      }
      else if (op == "linear")
      {
        // corners (low/high per axis), values at the corners in the order of the arguments, the query
        const L lo = list(), size = list(), val = list(), q = list(); const size_t n = lo.size(); double r = 0, den = 1; std::vector<X> w; X rx;
        for (const auto v : val) { X x(2); x << static_cast<double>(v), static_cast<double>(-2 * v + 1); w.push_back(x); }
        const X low = Xd(lo), high = low + Xd(size), at = Xd(q); for (const auto v : size) den *= static_cast<double>(v);
        if (n == 1) { r = m::LinearInterpolate<double>(low[0], high[0], val[0], val[1], at[0]); rx = m::LinearInterpolate<X>(low[0], high[0], w[0], w[1], at[0]); }
        else if (n == 2) { const Eigen::Vector2d l = low, h = high, p = at; r = m::BilinearInterpolate<double>(l, h, val[0], val[1], val[2], val[3], p); rx = m::BilinearInterpolate<X>(l, h, w[0], w[1], w[2], w[3], p); }
        else { const Eigen::Vector3d l = low, h = high, p = at; r = m::TrilinearInterpolate<double>(l, h, val[0], val[1], val[2], val[3], val[4], val[5], val[6], val[7], p); rx = m::TrilinearInterpolate<X>(l, h, w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], p); }
        c.Ev("op", op, "lo", lo, "size", size, "val", val, "q", q, "r", R(r * den), "x", Whole(rx, den));
      }
      else if (op == "avg")
      {
        // items, weights in quarters; sums scaled by the total weight
        const auto dim = t.Int(), n = t.Int(); std::vector<L> items; for (long long i = 0; i < n; i++) items.push_back(list());
        const L w = list(); V weights; double total = 0; for (const auto k : w) { weights.push_back(W1 * static_cast<double>(k) / 4.0); total += static_cast<double>(std::llabs(k)); } if (w.empty()) total = static_cast<double>(n);
        V ones; m::VectorVector3d v3; m::VectorVector4d v4; std::vector<X> vx; std::vector<Eigen::Vector2f> vf;
        for (const auto& a : items) { const X x = Xd(a); ones.push_back(x[0]); vx.push_back(x); if (dim >= 3) v3.push_back(x.head<3>()); if (dim >= 4) v4.push_back(x.head<4>()); }
        const auto one = [&](const std::string& f, const std::function<X()>& g) { X r; const std::string st = Try([&] { r = g(); }); c.Ev("op", op, "f", f, "items", items, "w", w, "st", st, "r", Whole(r, total / U1)); };
        one("1", [&] { X r(1); r[0] = m::AverageStdVectorDouble(ones, weights); return r; });
        one("x", [&] { return X(m::AverageEigenVectorXd(vx, weights)); });
        if (dim >= 3) one("3", [&] { return X(m::AverageEigenVector3d(v3, weights)); });
        if (dim >= 4) one("4", [&] { return X(m::AverageEigenVector4d(v4, weights)); });
      }
      else if (op == "dev")
      {
        const L a = list(); const auto mean = t.Int(); double d1 = 0, d2 = 0; const double n = static_cast<double>(a.size());
        const std::string st = Try([&] { d1 = m::ComputeStdDevStdVectorDouble(Vec(a), U1 * static_cast<double>(mean)); }), st2 = Try([&] { d2 = m::ComputeStdDevStdVectorDouble(Vec(a)); });
        c.Ev("op", op, "a", a, "mean", mean, "st", st, "st2", st2, "d", R(SignSq(d1) / U2 * (n - 1)), "d2", R(SignSq(d2) / U2 * (n - 1) * n));
      }
      else if (op == "wdot")
      {
        const L a = list(), b = list(), w = list(); double cs = 0, an = 0; const X x = Xd(a), y = Xd(b), z = Xd(w) * W1; const double q2 = 1 / (U2 * U1 * W1), n2 = m::WeightedSquaredNorm(x, z) * q2 * m::WeightedSquaredNorm(y, z) * q2;
        const std::string st = Try([&] { cs = m::WeightedCosineAngleBetweenVectors(x, y, z); }), st2 = Try([&] { an = m::WeightedAngleBetweenVectors(x, y, z); });
        c.Ev("op", op, "a", a, "b", b, "w", w, "dot", D(m::WeightedDotProduct(x, y, z) * q2), "sq", D(m::WeightedSquaredNorm(x, z) * q2), "norm", R(SignSq(m::WeightedNorm(x, z)) * q2), "st", st, "st2", st2,
             "cos", R(SignSq(cs) * n2), "angle", R(SignSq(std::cos(an)) * n2), "in", cs >= -1.0 && cs <= 1.0 && an >= 0.0 && an <= M_PI);
      }
      else if (op == "clamp")
      {
        const L a = list(); const auto mx = t.Int(); const double n2 = SqN(a) / U2, limit = U1 * static_cast<double>(mx); X x = Xd(a); std::vector<double> r, r2;
        const Eigen::MatrixXd y = m::ClampNorm(x, limit); for (long i = 0; i < y.rows(); i++) r.push_back(SignSq(y(i, 0)) * n2);
        bool same = y.cols() == 1 && y.rows() == x.size(); for (long i = 0; i < x.size(); i++) same = same && y(i, 0) == x[i];
        if (x.size() % 2 == 0) { const Eigen::MatrixXd z = Eigen::Map<const Eigen::MatrixXd>(x.data(), 2, x.size() / 2); const Eigen::MatrixXd q = m::ClampNorm(z, limit); for (long i = 0; i < q.size(); i++) r2.push_back(SignSq(q.data()[i]) * n2); } else r2 = r;
        c.Ev("op", op, "a", a, "max", mx, "r", Whole(r), "r2", Whole(r2), "same", same, "over", y.norm() > limit * (1 + 1e-12));
      }
      else if (op == "proj")
      {
        const L b = list(), v = list(); const double n2 = std::max(1.0, SqN(b)) / U1; const X x = Xd(b), y = Xd(v); X p = m::VectorProjection(x, y), q = m::VectorRejection(x, y);
        if (b.size() == 3) { const Eigen::Vector3d x3 = x, y3 = y; c.Ev("op", op, "b", b, "v", v, "p", Whole(m::VectorProjection(x3, y3), n2), "q", Whole(m::VectorRejection(x3, y3), n2)); }
        c.Ev("op", op, "b", b, "v", v, "p", Whole(p, n2), "q", Whole(q, n2));
      }
      else if (op == "ortho")
      {
        const L b = list(); const double scale = std::ldexp(1.0, static_cast<int>(t.Int())); const X x = Xd(b) * scale; X r; const std::string st = Try([&] { r = m::GetArbitraryOrthogonalVector(x); });
        if (b.size() == 3) { const Eigen::Vector3d x3 = x; X r3; const std::string s3 = Try([&] { r3 = m::GetArbitraryOrthogonalVector(x3); }); c.Ev("op", op, "b", b, "st", s3, "n", static_cast<long long>(r3.size()), "some", r3.norm() > 1e-3, "cos", r3.size() ? Micro(x3.normalized().dot(r3.normalized())) : R(0)); }
        c.Ev("op", op, "b", b, "st", st, "n", static_cast<long long>(r.size()), "some", r.norm() > 1e-3, "cos", r.size() && x.size() == r.size() ? Micro(x.normalized().dot(r.normalized())) : R(0));
      }
      else if (op == "inplane")
      {
        const L a = list(), b = list(), v = list(); X r; const std::string st = Try([&] { r = m::GetArbitraryOrthogonalVectorToPlane(Xd(a), Xd(b), Xd(v)); });
        // against the plane's normal too, in three dimensions
        double n = 0; if (st == "ok" && a.size() == 3 && r.size() == 3) { const Eigen::Vector3d p = Xd(a), q = Xd(b), u = r; n = p.cross(q).normalized().dot(u.normalized()); }
        c.Ev("op", op, "a", a, "b", b, "v", v, "st", st, "some", r.norm() > 1e-6, "cos", st == "ok" && v.size() == static_cast<size_t>(r.size()) ? Micro(Xd(v).normalized().dot(r.normalized())) : R(0), "off", Micro(n));
      }
      else if (op == "plane")
      {
        const L o = list(), n = list(), p = list(); const double n2 = std::max(1.0, SqN(n)); std::unique_ptr<m::Hyperplane> h; const std::string st = Try([&] { h.reset(new m::Hyperplane(Xd(o), Xd(n))); });
        if (st != "ok") { c.Ev("op", op, "o", o, "n", n, "p", p, "st", st); continue; }
        const X x = Xd(p); double d2 = 0; for (size_t i = 0; i < p.size(); i++) d2 += static_cast<double>((p[i] - o[i]) * (p[i] - o[i])); d2 = std::max(1.0, d2);
        c.Ev("op", op, "o", o, "n", n, "p", p, "st", st, "dim", h->GetDimensionality(), "origin", Exact(h->GetOrigin(), 1 / U1), "normal", Exact(h->GetNormal(), 1 / U1), "raw", D(h->GetRawDotProduct(x) / U2), "normed", R(SignSq(h->GetNormedDotProduct(x)) / U2 * d2),
             "sq", R(h->GetSquaredDistanceToPlane(x) / U2 * n2), "dist", R(SignSq(h->GetDistanceToPlane(x)) / U2 * n2), "pv", Whole(h->ProjectVectorOntoPlane(x), n2 / U1), "rv", Whole(h->RejectVectorOntoPlane(x), n2 / U1), "pp", Whole(h->ProjectPointOntoPlane(x), n2 / U1));
      }
      else if (op == "fit")
      {
        const auto n = t.Int(); std::vector<L> pts; std::vector<X> xs; for (long long i = 0; i < n; i++) { pts.push_back(list()); xs.push_back(Xd(pts.back())); }
        m::Hyperplane h; const std::string st = Try([&] { h = m::FitPlaneToPoints(xs); });
        if (st != "ok") { c.Ev("op", op, "pts", pts, "st", st); continue; }
        double sum = 0; for (const auto& x : xs) { const double d = h.GetNormal().dot(x - h.GetOrigin()); sum += d * d; }
        c.Ev("op", op, "pts", pts, "st", st, "dim", h.GetDimensionality(), "centre", Whole(h.GetOrigin(), static_cast<double>(n) / U1), "unit", Micro(h.GetNormal().norm()), "sum", Raw{std::to_string(static_cast<long long>(std::round(sum / U2 * 1e3)))});
      }
      else if (op == "table")
      {
        // |a-b| and, for two collections, 10a+b; how often the function was called for each pair is counted
        const auto kind = t.Int(), threads = t.Int(), nested = t.Int(); const L a = list(), b = list(); const std::vector<int> x(a.begin(), a.end()), y(b.begin(), b.end());
        const auto deg = threads < 1 ? par::DegreeOfParallelism::None() : par::DegreeOfParallelism(threads); std::atomic<long long> calls(0); Eigen::MatrixXd r; std::string st;
        const auto work = [&](Eigen::MatrixXd& out, bool count) {
          const std::function<double(const int&, const int&)> one = [&](const int& p, const int& q) { if (count) calls++; std::this_thread::yield(); return Fine(std::abs(static_cast<double>(p - q))); };
          const std::function<double(const int&, const int&)> two = [&](const int& p, const int& q) { if (count) calls++; std::this_thread::yield(); return Fine(10.0 * p + q); };
          if (kind == 0) out = m::BuildPairwiseDistanceMatrix<int>(x, one, deg); else if (kind == 1) out = m::BuildPairwiseDistanceMatrix<int, int>(x, y, two, deg);
          else if (kind == 2) out = m::BuildPairwiseDistanceMatrix<int, std::deque<int>>(std::deque<int>(x.begin(), x.end()), one, deg); else out = m::BuildPairwiseDistanceMatrix<int, int, std::vector<int>, std::deque<int>>(x, std::deque<int>(y.begin(), y.end()), two, deg); };
        if (nested == 0) { st = Try([&] { work(r, true); }); c.Ev("op", op, "kind", kind, "a", a, "b", b, "st", st, "r", Table(r), "rows", static_cast<long long>(r.rows()), "cols", static_cast<long long>(r.cols()), "calls", calls.load()); }
        else
        {
          std::vector<Eigen::MatrixXd> rs(static_cast<size_t>(nested)); std::vector<std::string> sts(rs.size());
          par::StaticParallelForIndexLoop(par::DegreeOfParallelism(2), 0, nested, [&](const int, const int64_t i) { sts[static_cast<size_t>(i)] = Try([&] { work(rs[static_cast<size_t>(i)], i == 0); }); });
          for (size_t i = 0; i < rs.size(); i++) c.Ev("op", op, "kind", kind, "a", a, "b", b, "st", sts[i], "r", Table(rs[i]), "rows", static_cast<long long>(rs[i].rows()), "cols", static_cast<long long>(rs[i].cols()), "calls", calls.load());
        }
      }
    }
  });
}
