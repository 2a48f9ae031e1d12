// A robot model implementing the interface, and what the interface derives from it (C39).
#include "drv.hpp"
#include <memory>
#include <common_robotics_utilities/simple_robot_model_interface.hpp>
using namespace drv;
using L = std::vector<long long>;
template<typename C> struct Conf;
template<> struct Conf<std::vector<double>> { static std::vector<double> From(const L& a) { std::vector<double> v(a.begin(), a.end()); for (auto& x : v) x = Fine(x); return v; } static double At(const std::vector<double>& c, size_t i) { return c[i]; } static size_t N(const std::vector<double>& c) { return c.size(); } };
template<> struct Conf<Eigen::VectorXd> { static Eigen::VectorXd From(const L& a) { Eigen::VectorXd v(static_cast<long>(a.size())); for (size_t i = 0; i < a.size(); i++) v[static_cast<long>(i)] = Fine(static_cast<double>(a[i])); return v; } static double At(const Eigen::VectorXd& c, size_t i) { return c[static_cast<long>(i)]; } static size_t N(const Eigen::VectorXd& c) { return static_cast<size_t>(c.size()); } };
template<typename C> class Model : public common_robotics_utilities::simple_robot_model_interface::SimpleRobotModelInterface<C>
{
public:
  L w; C pos;
  Model(const L& weights) : w(weights), pos(Conf<C>::From(L(weights.size(), 0))) {}
  common_robotics_utilities::simple_robot_model_interface::SimpleRobotModelInterface<C>* Clone() const override { return new Model(*this); }
  const C& GetPosition() const override { return pos; }
  const C& SetPosition(const C& c) override { pos = c; return pos; }
  std::vector<std::string> GetLinkNames() const override { return {"a"}; }
  Eigen::Isometry3d GetLinkTransform(const int64_t) const override { return Eigen::Isometry3d::Identity(); }
  Eigen::Isometry3d GetLinkTransform(const std::string&) const override { return Eigen::Isometry3d::Identity(); }
  common_robotics_utilities::math::VectorIsometry3d GetLinkTransforms() const override { return {Eigen::Isometry3d::Identity()}; }
  common_robotics_utilities::math::MapStringIsometry3d GetLinkTransformsMap() const override { return {}; }
  double ComputeConfigurationDistance(const C& a, const C& b) const override { return ComputePerDimensionConfigurationSignedDistance(a, b).cwiseAbs().sum(); }
  Eigen::VectorXd ComputePerDimensionConfigurationSignedDistance(const C& a, const C& b) const override
  { Eigen::VectorXd r(static_cast<long>(w.size())); for (size_t i = 0; i < w.size(); i++) { const double d = Conf<C>::At(b, i) - Conf<C>::At(a, i); r[static_cast<long>(i)] = (d >= 0 ? static_cast<double>(w[i]) : static_cast<double>(w[i] + 1)) * d; } return r; }
  C InterpolateBetweenConfigurations(const C& a, const C&, const double) const override { return a; }
  C AverageConfigurations(const std::vector<C>& c) const override { return c.at(0); }
  Eigen::Matrix<double, 3, Eigen::Dynamic> ComputeLinkPointTranslationJacobian(const std::string&, const Eigen::Vector4d&) const override { return {}; }
  Eigen::Matrix<double, 6, Eigen::Dynamic> ComputeLinkPointJacobian(const std::string&, const Eigen::Vector4d&) const override { return {}; }
};
template<typename C> void Run(Tokens& t, Case& c, const L& w)
{
  using B = common_robotics_utilities::simple_robot_model_interface::SimpleRobotModelInterface<C>; using F = Conf<C>;
  std::unique_ptr<B> ms[2] = {std::unique_ptr<B>(new Model<C>(w)), std::unique_ptr<B>(new Model<C>(w))};
  const auto cf = [](const C& x) { std::vector<Raw> o; for (size_t i = 0; i < F::N(x); i++) o.push_back(DU(F::At(x, i))); return o; };
  const auto vc = [](const Eigen::VectorXd& x) { std::vector<Raw> o; for (long i = 0; i < x.size(); i++) o.push_back(DU(x[i])); return o; };
  while (t.Has())
  {
    const std::string op = t.Str(); const auto m = t.Int(); auto& a = ms[m - 1];
    if (op == "set") { const L x = t.List<long long>(); const C got = a->SetPosition(F::From(x)); c.Ev("op", op, "m", m, "x", x, "got", cf(got), "at", cf(a->GetPosition())); }
    else if (op == "clone") { ms[2 - m].reset(a->Clone()); c.Ev("op", op, "m", m, "at", cf(ms[2 - m]->GetPosition())); }
    else
    {
      const L x = t.List<long long>(), y = t.List<long long>(); const C X = F::From(x), Y = F::From(y); const B& r = *a;
      c.Ev("op", op, "m", m, "x", x, "y", y, "at", cf(r.GetPosition()), "signedTo", vc(r.ComputePerDimensionConfigurationSignedDistanceTo(X)), "eachTo", vc(r.ComputePerDimensionConfigurationDistanceTo(X)), "distTo", DU(r.ComputeConfigurationDistanceTo(X)),
           "each", vc(r.ComputePerDimensionConfigurationDistance(Y, X)), "signed", vc(r.ComputePerDimensionConfigurationSignedDistance(Y, X)), "dist", DU(r.ComputeConfigurationDistance(Y, X)));
    }
  }
}
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    const std::string kind = t.Str(); const L w = t.List<long long>(); c.Head("w", w);
    if (kind == "v") Run<std::vector<double>>(t, c, w); else Run<Eigen::VectorXd>(t, c, w);
  });
}
