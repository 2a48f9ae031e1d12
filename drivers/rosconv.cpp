// Conversions between ROS messages (stand-ins in ros/) and Eigen types, and time stamps (C38).
#include "drv.hpp"
#include <deque>
#include <list>
#include <common_robotics_utilities/ros_conversions.hpp>
#include <common_robotics_utilities/ros_helpers.hpp>
using namespace drv;
using namespace common_robotics_utilities::ros_conversions;
namespace rh = common_robotics_utilities::ros_helpers;
namespace m = common_robotics_utilities::math;
using L = std::vector<long long>;
static Raw R(double v, double tol = 1e-6) { const double r = std::round(v); if (!(std::fabs(v - r) < tol) || std::fabs(r) > 1e9) return Raw{"-1000000002"}; return Raw{std::to_string(static_cast<long long>(r))}; }
// coordinates are whole numbers of the case's unit, which takes all digits of a double; they are carried exactly
static Raw X(double v) { const double r = std::round(v / Unit()); return r * Unit() == v ? R(r) : Raw{"-1000000002"}; }
static std::vector<Raw> Row(std::initializer_list<double> v) { std::vector<Raw> o; for (const double x : v) o.push_back(X(x)); return o; }
static std::vector<Raw> Row(std::initializer_list<double> v, double s, double p)
{ std::vector<Raw> o; for (const double x : v) o.push_back(R(x * s)); const double r = std::round(p / Unit()); o.push_back(r * Unit() == p ? R(r * s) : Raw{"-1000000002"}); return o; }
// what the forms hold, exactly for coordinates, and times n for rotations (by the textbook formula)
static Raw Of(const Eigen::Vector3d& v) { return Raw{J(Row({v.x(), v.y(), v.z()}))}; }
static Raw Of(const Eigen::Vector4d& v) { auto o = Row({v.x(), v.y(), v.z()}); o.push_back(v.w() == std::round(v.w()) ? R(v.w()) : Raw{"-1000000002"}); return Raw{J(o)}; }
static Raw Of(const GeometryPoint& v) { return Raw{J(Row({v.x, v.y, v.z}))}; }
static Raw Of(const GeometryVector3& v) { return Raw{J(Row({v.x, v.y, v.z}))}; }
static Raw Of(const Eigen::Quaterniond& q) { return Raw{J(Row({q.w(), q.x(), q.y(), q.z()}))}; }
static Raw Of(const GeometryQuaternion& q) { return Raw{J(Row({q.w, q.x, q.y, q.z}))}; }
static double N = 1;
template<typename P, typename Q> static Raw Top(const P& p, const Q& q)
{
  const double w = q.w, x = q.x, y = q.y, z = q.z, k = N;
  if (!(std::fabs(w * w + x * x + y * y + z * z - 1.0) < 1e-9)) return Raw{"\"not a rotation\""};
  std::vector<std::vector<Raw>> o{Row({w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)}, k, p.x), Row({2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)}, k, p.y), Row({2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z}, k, p.z)};
  return Raw{J(o)};
}
static Raw Of(const GeometryPose& p) { return Top(p.position, p.orientation); }
static Raw Of(const GeometryTransform& p) { return Top(p.translation, p.rotation); }
static Raw Of(const Eigen::Isometry3d& t)
{
  std::vector<std::vector<Raw>> o; const Eigen::Matrix4d a = t.matrix();
  for (int i = 0; i < 3; i++) o.push_back(Row({a(i, 0), a(i, 1), a(i, 2)}, N, a(i, 3)));
  if (!(a(3, 0) == 0 && a(3, 1) == 0 && a(3, 2) == 0 && a(3, 3) == 1)) return Raw{"\"bad last row\""};
  return Raw{J(o)};
}
template<typename T> static Raw All(const T& list) { std::vector<Raw> o; for (const auto& x : list) o.push_back(Of(x)); return Raw{J(o)}; }
static Eigen::Vector3d V3(const L& t) { return Eigen::Vector3d(Fine(static_cast<double>(t[0])), Fine(static_cast<double>(t[1])), Fine(static_cast<double>(t[2]))); }
// @: no name; _: a blank
static std::string Name(std::string s) { if (s == "@") return ""; for (auto& x : s) if (x == '_') x = ' '; return s; }
static std::string Name(long long id) { return id % 4 == 0 ? "" : id % 4 == 1 ? "map" : std::to_string(id); }
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    Eigen::Vector3d v3; Eigen::Vector4d v4; GeometryPoint pt; GeometryVector3 vec; GeometryPointStamped ptst; Eigen::Quaterniond q; GeometryQuaternion qm; Eigen::Isometry3d iso = Eigen::Isometry3d::Identity(); GeometryPose pose; GeometryTransform tf; GeometryPoseStamped posest; GeometryTransformStamped tfst;
    std::vector<GeometryPoint> pts; std::vector<GeometryVector3> vecs; Eigen::Matrix3Xd m3x; m::VectorVector3d vv3; m::VectorIsometry3d isos; std::vector<GeometryPose> poses; std::vector<GeometryTransform> tfs;
    std::string at;
    const auto show = [&](const std::string& f) {
      at = f; std::string fr, ch;
      if (f == "ptst") fr = ptst.header.frame_id; if (f == "posest") fr = posest.header.frame_id; if (f == "tfst") { fr = tfst.header.frame_id; ch = tfst.child_frame_id; }
      Raw r{"0"};
      if (f == "v3") r = Of(v3); else if (f == "v4") r = Of(v4); else if (f == "pt") r = Of(pt); else if (f == "vec") r = Of(vec); else if (f == "ptst") r = Of(ptst.point); else if (f == "q") r = Of(q); else if (f == "qm") r = Of(qm);
      else if (f == "iso") r = Of(iso); else if (f == "pose") r = Of(pose); else if (f == "tf") r = Of(tf); else if (f == "posest") r = Of(posest.pose); else if (f == "tfst") r = Of(tfst.transform);
      else if (f == "pts") r = All(pts); else if (f == "vecs") r = All(vecs); else if (f == "vv3") r = All(vv3); else if (f == "isos") r = All(isos); else if (f == "poses") r = All(poses); else if (f == "tfs") r = All(tfs);
      else if (f == "m3x") { std::vector<Raw> o; for (long i = 0; i < m3x.cols(); i++) o.push_back(Of(Eigen::Vector3d(m3x.col(i)))); r = Raw{J(o)}; }
      c.Ev("op", std::string("to"), "f", f, "v", r, "frame", fr, "child", ch);
    };
    const auto rot = [&](const L& a, double& n) { n = 0; for (int i = 0; i < 4; i++) n += static_cast<double>(a[static_cast<size_t>(i)] * a[static_cast<size_t>(i)]); return Eigen::Quaterniond(static_cast<double>(a[0]), static_cast<double>(a[1]), static_cast<double>(a[2]), static_cast<double>(a[3])).normalized(); };
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "new")
      {
        const std::string f = t.Str(); std::vector<L> a; const auto n = t.Int(); for (long long i = 0; i < n; i++) a.push_back(t.List<long long>());
        c.Ev("op", op, "f", f, "a", a); at = f;
        if (f == "v3") v3 = V3(a[0]); else if (f == "v4") v4 << V3(a[0]), static_cast<double>(a[0][3]);
        else if (f == "pt") { pt.x = Fine(a[0][0]); pt.y = Fine(a[0][1]); pt.z = Fine(a[0][2]); } else if (f == "vec") { vec.x = Fine(a[0][0]); vec.y = Fine(a[0][1]); vec.z = Fine(a[0][2]); }
        else if (f == "q") q = Eigen::Quaterniond(Fine(a[0][0]), Fine(a[0][1]), Fine(a[0][2]), Fine(a[0][3])); else if (f == "qm") { qm.w = Fine(a[0][0]); qm.x = Fine(a[0][1]); qm.y = Fine(a[0][2]); qm.z = Fine(a[0][3]); }
        else if (f == "pts") { pts.clear(); for (const auto& x : a) { GeometryPoint p; p.x = Fine(x[0]); p.y = Fine(x[1]); p.z = Fine(x[2]); pts.push_back(p); } }
        else if (f == "vecs") { vecs.clear(); for (const auto& x : a) { GeometryVector3 p; p.x = Fine(x[0]); p.y = Fine(x[1]); p.z = Fine(x[2]); vecs.push_back(p); } }
        else if (f == "vv3") { vv3.clear(); for (const auto& x : a) vv3.push_back(V3(x)); }
        else if (f == "m3x") { m3x.resize(3, static_cast<long>(a.size())); for (size_t i = 0; i < a.size(); i++) m3x.col(static_cast<long>(i)) = V3(a[i]); }
        else
        {
          isos.clear(); poses.clear(); tfs.clear(); N = 1;
          for (const auto& x : a)
          {
            double n2; const Eigen::Quaterniond k = rot(x, n2); N = n2; const Eigen::Vector3d p(Fine(x[4]), Fine(x[5]), Fine(x[6]));
            iso = Eigen::Isometry3d::Identity(); iso.linear() = k.toRotationMatrix(); iso.translation() = p;
            pose.position.x = p.x(); pose.position.y = p.y(); pose.position.z = p.z(); pose.orientation.w = k.w(); pose.orientation.x = k.x(); pose.orientation.y = k.y(); pose.orientation.z = k.z();
            tf.translation.x = p.x(); tf.translation.y = p.y(); tf.translation.z = p.z(); tf.rotation = pose.orientation;
            isos.push_back(iso); poses.push_back(pose); tfs.push_back(tf);
          }
        }
      }
      else if (op == "to")
      {
        const std::string f = t.Str(), k = at + ">" + f; std::string fr, ch; if (f == "ptst" || f == "posest" || f == "tfst") fr = Name(t.Str()); if (f == "tfst") ch = Name(t.Str());
        c.Ev("op", std::string("ask"), "f", f, "frame", fr, "child", ch);
        if (k == "v3>pt") pt = EigenVector3dToGeometryPoint(v3); else if (k == "v3>vec") vec = EigenVector3dToGeometryVector3(v3); else if (k == "v3>ptst") ptst = EigenVector3dToGeometryPointStamped(v3, fr);
        else if (k == "v4>pt") pt = EigenVector4dToGeometryPoint(v4); else if (k == "v4>vec") vec = EigenVector4dToGeometryVector3(v4);
        else if (k == "pt>v3") v3 = GeometryPointToEigenVector3d(pt); else if (k == "pt>v4") v4 = GeometryPointToEigenVector4d(pt); else if (k == "vec>v3") v3 = GeometryVector3ToEigenVector3d(vec); else if (k == "vec>v4") v4 = GeometryVector3ToEigenVector4d(vec); else if (k == "ptst>pt") pt = ptst.point;
        else if (k == "q>qm") qm = EigenQuaterniondToGeometryQuaternion(q); else if (k == "qm>q") q = GeometryQuaternionToEigenQuaterniond(qm);
        else if (k == "iso>pose") pose = EigenIsometry3dToGeometryPose(iso); else if (k == "iso>tf") tf = EigenIsometry3dToGeometryTransform(iso); else if (k == "iso>posest") posest = EigenIsometry3dToGeometryPoseStamped(iso, fr); else if (k == "iso>tfst") tfst = EigenIsometry3dToGeometryTransformStamped(iso, fr, ch);
        else if (k == "pose>iso") iso = GeometryPoseToEigenIsometry3d(pose); else if (k == "tf>iso") iso = GeometryTransformToEigenIsometry3d(tf); else if (k == "posest>pose") pose = posest.pose; else if (k == "tfst>tf") tf = tfst.transform;
        else if (k == "pts>m3x") m3x = VectorGeometryPointToEigenMatrix3Xd(pts); else if (k == "m3x>pts") pts = EigenMatrix3XdToVectorGeometryPoint(m3x); else if (k == "vv3>pts") pts = VectorEigenVector3dToVectorGeometryPoint(vv3); else if (k == "pts>vv3") vv3 = VectorGeometryPointToVectorEigenVector3d(pts); else if (k == "vecs>vv3") vv3 = VectorGeometryVector3ToEigenVector3d(vecs);
        else if (k == "poses>isos") isos = VectorGeometryPoseToVectorIsometry3d(poses); else if (k == "tfs>isos") isos = VectorGeometryPoseToVectorIsometry3d(tfs); else if (k == "isos>poses") poses = VectorIsometry3dToVectorGeometryPose(isos); else if (k == "isos>tfs") tfs = VectorIsometry3dToVectorGeometryTransform(isos);
        else throw std::logic_error("no conversion " + k);
        show(f);
      }
      else if (op == "stamp")
      {
        // messages as frame numbers; form: a marker array, a vector of markers, or a vector of stamped points
        const std::string how = t.Str(); const L ids = t.List<long long>(); const L old = t.List<long long>(); const auto ns = t.Int(); const rh::RosTime time(static_cast<int64_t>(ns)); L after, stamps;
        const auto points = [&](auto v) {
          for (size_t i = 0; i < ids.size(); i++) { v.emplace_back(); v.back().point.x = static_cast<double>(ids[i]); v.back().header.frame_id = Name(ids[i]); v.back().header.stamp = rh::RosTime(static_cast<int64_t>(old[i])); }
          rh::SetMessageTimestamps<GeometryPointStamped>(v, time);
          for (const auto& x : v) { const auto id = static_cast<long long>(x.point.x); after.push_back(x.header.frame_id == Name(id) ? id : -1); stamps.push_back(Nanos(x.header.stamp)); } };
        if (how == "points") points(std::vector<GeometryPointStamped>());
        else if (how == "list") points(std::list<GeometryPointStamped>());
        else if (how == "poses")
        {
          std::deque<GeometryPoseStamped> v; for (size_t i = 0; i < ids.size(); i++) { v.emplace_back(); v.back().pose.position.z = static_cast<double>(ids[i]); v.back().header.frame_id = Name(ids[i]); v.back().header.stamp = rh::RosTime(static_cast<int64_t>(old[i])); }
          rh::SetMessageTimestamps<GeometryPoseStamped>(v, time);
          for (const auto& x : v) { const auto id = static_cast<long long>(x.pose.position.z); after.push_back(x.header.frame_id == Name(id) && x.pose.orientation.w == 0 ? id : -1); stamps.push_back(Nanos(x.header.stamp)); }
        }
        else
        {
          rh::VisualizationMarkerArray a; for (size_t i = 0; i < ids.size(); i++) { a.markers.emplace_back(); a.markers.back().id = static_cast<int32_t>(ids[i]); a.markers.back().header.frame_id = Name(ids[i]); a.markers.back().ns = Name(ids[i] / 3); a.markers.back().header.stamp = rh::RosTime(static_cast<int64_t>(old[i])); }
          if (how == "array") rh::SetMessageTimestamps(a, time); else rh::SetMessageTimestamps<rh::VisualizationMarker>(a.markers, time);
          for (const auto& x : a.markers) { after.push_back(x.header.frame_id == Name(x.id) && x.ns == Name(x.id / 3) ? x.id : -1); stamps.push_back(Nanos(x.header.stamp)); }
        }
        c.Ev("op", op, "how", how, "ids", ids, "t", ns, "after", after, "stamps", stamps);
      }
      else throw std::logic_error("unknown operation " + op);
    }
  });
}
