// Rigid transforms, twists, rotations, their averages and conversions (C33).
// A rotation is given by a quaternion of whole numbers (its matrix, times |q|^2, is whole).
#include "drv.hpp"
#include <common_robotics_utilities/conversions.hpp>
#include <common_robotics_utilities/math.hpp>
using namespace drv;
namespace m = common_robotics_utilities::math;
namespace cv = common_robotics_utilities::conversions;
using L = std::vector<long long>; using Q = Eigen::Quaterniond; using T3 = Eigen::Isometry3d; using Twist = Eigen::Matrix<double, 6, 1>;
static Raw R(double v, double tol = 1e-5) { const double r = std::round(v); if (!(std::fabs(v - r) < tol * std::max(1.0, std::fabs(v) * 1e-4)) || std::fabs(r) > 1e9) return Raw{"-1000000002"}; return Raw{std::to_string(static_cast<long long>(r))}; }
static Raw Micro(double v) { const double r = std::round(v * 1e6); if (!(std::fabs(r) < 2e9)) return Raw{"-1000000002"}; return Raw{std::to_string(static_cast<long long>(r))}; }
template<typename M> static Raw Mat(const M& a, double s = 1, double tol = 1e-5) { std::string o; for (long i = 0; i < a.rows(); i++) { o += i ? ",[" : "["; for (long j = 0; j < a.cols(); j++) o += (j ? "," : "") + R(a(i, j) * s, tol).s; o += "]"; } return Raw{"[" + o + "]"}; }
template<typename M> static Raw Vc(const M& a, double s = 1) { std::string o; for (long i = 0; i < static_cast<long>(a.size()); i++) o += (i ? "," : "") + R(a[i] * s).s; return Raw{"[" + o + "]"}; }
static double N2(const L& q) { double s = 0; for (const auto k : q) s += static_cast<double>(k * k); return s; }
static Q Quat(const L& q) { return Q(static_cast<double>(q[0]), static_cast<double>(q[1]), static_cast<double>(q[2]), static_cast<double>(q[3])).normalized(); }
static Eigen::Vector3d V3(const L& t) { return Eigen::Vector3d(static_cast<double>(t[0]), static_cast<double>(t[1]), static_cast<double>(t[2])); }
static T3 Pose(const L& q, const L& t) { T3 x = T3::Identity(); x.linear() = Quat(q).toRotationMatrix(); x.translation() = V3(t); return x; }
static double Angle(const Q& a, const Q& b) { const Q d = a.conjugate() * b; return 2.0 * std::atan2(d.vec().norm(), std::fabs(d.w())); }
static Eigen::Matrix<double, 3, 4> Top(const T3& t) { return t.matrix().topRows<3>(); }
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    const auto list = [&] { return t.List<long long>(); };
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "skew") { const L a = list(); const Eigen::Matrix3d k = m::Skew(V3(a)); c.Ev("op", op, "a", a, "k", Mat(k), "u", Vc(m::Unskew(k))); }
      else if (op == "unskew") { const L a = list(); Eigen::Matrix3d k; for (int i = 0; i < 9; i++) k(i / 3, i % 3) = static_cast<double>(a[static_cast<size_t>(i)]); c.Ev("op", op, "a", a, "u", Vc(m::Unskew(k), 2)); }
      else if (op == "hat") { const L a = list(); Twist w; for (int i = 0; i < 6; i++) w[i] = static_cast<double>(a[static_cast<size_t>(i)]); const Eigen::Matrix4d h = m::TwistHat(w); c.Ev("op", op, "a", a, "h", Mat(h), "u", Vc(m::TwistUnhat(h))); }
      else if (op == "adjoint")
      {
        const L q = list(), p = list(), a = list(); const T3 x = Pose(q, p); Twist w; for (int i = 0; i < 6; i++) w[i] = static_cast<double>(a[static_cast<size_t>(i)]);
        c.Ev("op", op, "q", q, "p", p, "a", a, "ad", Mat(m::AdjointFromTransform(x), N2(q)), "w", Vc(m::TransformTwist(x, w), N2(q)));
      }
      else if (op == "expm")
      {
        // the rotation of quaternion q as axis and angle; the axis stretched by k/4
        const L q = list(); const auto k = t.Int(); const Eigen::Vector3d v(static_cast<double>(q[1]), static_cast<double>(q[2]), static_cast<double>(q[3])); Eigen::Matrix3d r = Eigen::Matrix3d::Zero();
        const std::string st = Try([&] { r = m::ExpMatrixExact(m::Skew(v.normalized() * static_cast<double>(k) / 4.0), 2.0 * std::atan2(v.norm(), static_cast<double>(q[0]))); });
        c.Ev("op", op, "q", q, "k", k, "st", st, "r", Mat(r, N2(q)));
      }
      else if (op == "twist")
      {
        const L q1 = list(), p1 = list(), q2 = list(), p2 = list(); const T3 a = Pose(q1, p1), b = Pose(q2, p2); const Twist w = m::TwistBetweenTransforms(a, b); const double n = N2(q1) * N2(q2), s = N2(q2);
        // all of the motion, in one, two and four parts, past the end and back, and none of it
        const T3 half = m::ExpTwist(w, 0.5), part = m::ExpTwist(w, 0.25), there = a * m::ExpTwist(w, 1.0);
        c.Ev("op", op, "q1", q1, "p1", p1, "q2", q2, "p2", p2, "cos", R(std::cos(w.tail<3>().norm()) * n), "small", w.tail<3>().norm() <= M_PI, "one", Mat(Top(there), s), "two", Mat(Top(a * half * half), s), "four", Mat(Top(a * part * part * part * part), s),
             "back", Mat(Top(b * m::ExpTwist(w, -1.0)), N2(q1)), "none", Mat(Top(a * m::ExpTwist(w, 0.0)), N2(q1)),
             // the same motion more slowly and faster, for longer and shorter
             "rates", [&] { std::vector<Raw> v; for (const int k : {-60, -16, -10, -7, -4, 2, 7, 30}) v.push_back(Mat(Top(a * m::ExpTwist(Twist(w * std::pow(10.0, k)), std::pow(10.0, -k))), s)); return v; }());
      }
      else if (op == "tiny")
      {
        // poses apart by a turn of 10^-k about an axis and by p (in units of 10^-j)
        const L q1 = list(), p1 = list(), ax = list(), p = list(); const auto k = t.Int(), j = t.Int(); const double angle = std::pow(10.0, static_cast<double>(-k)), size = std::pow(10.0, static_cast<double>(-j)); const T3 a = Pose(q1, p1); T3 diff = T3::Identity();
        const Eigen::Vector3d u = V3(ax).normalized(); diff.linear() = Eigen::AngleAxisd(angle, u).toRotationMatrix(); diff.translation() = V3(p) * size; const T3 b = a * diff; const Twist w = m::TwistBetweenTransforms(a, b);
        const auto err = [](const T3& x, const T3& y) { return Micro((x.matrix() - y.matrix()).cwiseAbs().maxCoeff() * 1e3); };  // in units of 10^-9
        T3 many = a; const T3 part = m::ExpTwist(w, 1.0 / 64.0); for (int i = 0; i < 64; i++) many = many * part;
        c.Ev("op", op, "k", k, "j", j, "one", err(a * m::ExpTwist(w, 1.0), b), "many", err(many, b), "back", err(b * m::ExpTwist(w, -1.0), a), "turn", Micro((w.tail<3>() / angle - u).norm()), "dist", Micro(m::Distance(Q(a.linear()), Q(b.linear()))), "angle", Micro(angle));
      }
      else if (op == "slide") { const L a = list(); const auto k = t.Int(); Twist w = Twist::Zero(); for (int i = 0; i < 3; i++) w[i] = static_cast<double>(a[static_cast<size_t>(i)]); c.Ev("op", op, "a", a, "k", k, "r", Mat(Top(m::ExpTwist(w, static_cast<double>(k) / 4.0)), 4)); }
      else if (op == "dist")
      {
        const L q1 = list(), p1 = list(), q2 = list(), p2 = list(); const auto k = t.Int(); const Q a = Quat(q1), b = Quat(q2); const T3 x = Pose(q1, p1), y = Pose(q2, p2); const double d = m::Distance(a, b), n = N2(q1) * N2(q2);
        c.Ev("op", op, "q1", q1, "p1", p1, "q2", q2, "p2", p2, "k", k, "cos", R(std::cos(d) * n), "in", d >= 0.0 && d <= M_PI, "rot", Micro(d), "sym", Micro(m::Distance(b, a)), "shift", R(std::pow(m::Distance(x, y, 0.0), 2)), "s0", Micro(m::Distance(x, y, 0.0)), "s1", Micro(m::Distance(x, y, 1.0)), "mix", Micro(m::Distance(x, y, static_cast<double>(k) / 8.0)));
      }
      else if (op == "slerp")
      {
        const L q1 = list(), p1 = list(), q2 = list(), p2 = list(); const auto k = t.Int(); const Q a = Quat(q1), b = Quat(q2); const double ratio = static_cast<double>(k) / 8.0; const Q r = m::Interpolate(a, b, ratio); const T3 i = m::Interpolate(Pose(q1, p1), Pose(q2, p2), ratio); const Q ri(i.linear());
        c.Ev("op", op, "q1", q1, "p1", p1, "q2", q2, "p2", p2, "k", k, "cos", R(std::cos(Angle(a, b)) * N2(q1) * N2(q2)), "all", Micro(Angle(a, b)), "unit", Micro(r.norm()), "before", Micro(Angle(a, r)), "after", Micro(Angle(r, b)),
             "shift", Vc(Eigen::Vector3d(i.translation()), 8), "tunit", Micro((i.linear() * i.linear().transpose() - Eigen::Matrix3d::Identity()).norm()), "det", Micro(i.linear().determinant()), "tbefore", Micro(Angle(a, ri)), "tafter", Micro(Angle(ri, b)));
      }
      else if (op == "qavg")
      {
        // weights are whole; what is maximised is recorded for weights and for squared weights
        const auto n = t.Int(); std::vector<L> qs, ps; m::VectorQuaterniond quats; m::VectorIsometry3d poses; for (long long i = 0; i < n; i++) { qs.push_back(list()); ps.push_back(list()); quats.push_back(Quat(qs.back())); poses.push_back(Pose(qs.back(), ps.back())); }
        const L w = list(); const std::vector<double> weights(w.begin(), w.end()); Q r(0, 0, 0, 0); T3 x = T3::Identity(); double s1 = 0, s2 = 0, total = 0, x1 = 0, x2 = 0;
        const std::string st = Try([&] { r = m::AverageEigenQuaterniond(quats, weights); }), st2 = Try([&] { x = m::AverageEigenIsometry3d(poses, weights); }); const Q rx(x.linear());
        for (size_t i = 0; i < quats.size(); i++) { const double wt = w.size() == qs.size() ? std::fabs(weights[i]) : 1.0, d = r.dot(quats[i]) * r.dot(quats[i]), dx = rx.dot(quats[i]) * rx.dot(quats[i]); total += wt; s1 += wt * d; s2 += wt * wt * d; x1 += wt * dx; x2 += wt * wt * dx; }
        c.Ev("op", op, "qs", qs, "ps", ps, "w", w, "st", st, "st2", st2, "unit", Micro(r.norm()), "s1", Micro(s1 / 10), "s2", Micro(s2 / 10), "x1", Micro(x1 / 10), "x2", Micro(x2 / 10), "shift", Vc(Eigen::Vector3d(x.translation()), total));
      }
      else if (op == "rpy")
      {
        // three angles as (cos, sin, hypotenuse), and a translation
        double a[3], h = 1; std::vector<L> as; for (int i = 0; i < 3; i++) { as.push_back(list()); a[i] = std::atan2(static_cast<double>(as.back()[1]), static_cast<double>(as.back()[0])); h *= static_cast<double>(as.back()[2]); }
        const L p = list(); const Eigen::Vector3d v = V3(p), e(a[0], a[1], a[2]); Eigen::VectorXd six(6); six << v, e;
        c.Ev("op", op, "as", as, "p", p, "q", Mat(cv::QuaternionFromRPY(a[0], a[1], a[2]).toRotationMatrix(), h), "u", Mat(cv::QuaternionFromUrdfRPY(a[0], a[1], a[2]).toRotationMatrix(), h),
             "qt", std::vector<Raw>{Mat(Top(cv::TransformFromXYZRPY(v.x(), v.y(), v.z(), a[0], a[1], a[2])), h), Mat(Top(cv::TransformFromRPY(v, e)), h), Mat(Top(cv::TransformFromRPY(six)), h)},
             "ut", std::vector<Raw>{Mat(Top(cv::TransformFromUrdfXYZRPY(v.x(), v.y(), v.z(), a[0], a[1], a[2])), h), Mat(Top(cv::TransformFromUrdfRPY(v, e)), h), Mat(Top(cv::TransformFromUrdfRPY(six)), h)});
      }
      else if (op == "euler")
      {
        const L q = list(), p = list(); const T3 x = Pose(q, p); const auto re = [&](const Eigen::Vector3d& e) { return (Eigen::AngleAxisd(e.x(), Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(e.y(), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(e.z(), Eigen::Vector3d::UnitZ())).toRotationMatrix(); };
        c.Ev("op", op, "q", q, "p", p, "r", std::vector<Raw>{Mat(re(cv::EulerAnglesFromRotationMatrix(x.linear())), N2(q)), Mat(re(cv::EulerAnglesFromQuaternion(Quat(q))), N2(q)), Mat(re(cv::EulerAnglesFromIsometry3d(x)), N2(q))}, "rt", Mat(Top(cv::TransformFromRPY(cv::TransformToRPY(x))), N2(q)), "n", static_cast<long long>(cv::TransformToRPY(x).size()));
      }
      else if (op == "vecs")
      {
        const L a = list(); const std::vector<double> v(a.begin(), a.end()); Eigen::VectorXd x(static_cast<long>(a.size())); for (size_t i = 0; i < a.size(); i++) x[static_cast<long>(i)] = v[i]; Eigen::Vector3d r3(0, 0, 0); Q rq(0, 0, 0, 0); T3 tr = T3::Identity();
        const std::string s3 = Try([&] { r3 = cv::StdVectorDoubleToEigenVector3d(v); }), sq = Try([&] { rq = cv::StdVectorDoubleToEigenQuaterniond(v); }), s6 = Try([&] { tr = cv::TransformFromRPY(x); }), s6u = Try([&] { tr = cv::TransformFromUrdfRPY(x); });
        c.Ev("op", op, "a", a, "s3", s3, "sq", sq, "s6", s6, "s6u", s6u, "r3", Vc(r3), "x", Vc(cv::StdVectorDoubleToEigenVectorXd(v)), "wxyz", std::vector<Raw>{R(rq.w()), R(rq.x()), R(rq.y()), R(rq.z())}, "b3", Vc(cv::EigenVector3dToStdVectorDouble(r3)), "bx", Vc(cv::EigenVectorXdToStdVectorDouble(x)), "bq", Vc(cv::EigenQuaterniondToStdVectorDouble(rq)));
      }
    }
  });
}
