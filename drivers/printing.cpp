// Printing (C35). A case gives a type from the list, delimiter flag, separator and integers the
// value is built from; recorded: the value, in iteration order, and the text.
#include "drv.hpp"
#include <common_robotics_utilities/print.hpp>
using namespace drv;
namespace pr = common_robotics_utilities::print;
struct Src { std::vector<long long> v; size_t i = 0; long long Next() { return v.empty() ? 0 : v[i++ % v.size()]; } size_t Len(size_t m) { return static_cast<size_t>(((Next() % (m + 1)) + (m + 1)) % (m + 1)); } };
struct Own { int value = 0; bool operator<(const Own& o) const { return value < o.value; } bool operator==(const Own& o) const { return value == o.value; } };
std::ostream& operator<<(std::ostream& s, const Own& o) { return s << "own" << o.value; }
namespace std { template<> struct hash<Own> { size_t operator()(const Own& o) const { return static_cast<size_t>(o.value); } }; }
// ---- building and describing values, by type
static Raw V(const char* k, const Raw& v) { return Obj("k", std::string(k), "v", v); }
template<typename T> struct T_;
template<> struct T_<int> { static int Make(Src& s) { return static_cast<int>(s.Next()); } static Raw Show(const int& x) { return V("int", Raw{J(x)}); } };
template<> struct T_<int64_t> { static int64_t Make(Src& s) { return s.Next(); } static Raw Show(const int64_t& x) { return V("int", Raw{J(x)}); } };
template<> struct T_<int16_t> { static int16_t Make(Src& s) { return static_cast<int16_t>(s.Next()); } static Raw Show(const int16_t& x) { return V("int", Raw{J(x)}); } };
template<> struct T_<size_t> { static size_t Make(Src& s) { return static_cast<size_t>(std::llabs(s.Next())); } static Raw Show(const size_t& x) { return V("int", Raw{J(x)}); } };
template<> struct T_<uint8_t> { static uint8_t Make(Src& s) { return static_cast<uint8_t>(s.Next()); } static Raw Show(const uint8_t& x) { return V("byte", Raw{J(static_cast<int>(x))}); } };
template<> struct T_<bool> { static bool Make(Src& s) { return s.Next() % 2 != 0; } static Raw Show(const bool& x) { return V("bool", Raw{J(x)}); } };
template<> struct T_<double> { static double Make(Src& s) { return static_cast<double>(s.Next() % 7993) / 8.0; } static Raw Show(const double& x) { return V("dec", Raw{J(static_cast<long long>(std::llround(x * 8)))}); } };
template<> struct T_<std::string> { static std::string Make(Src& s) { static const char* W[] = {"a", "", "b c", "[x]", ", ", "<k: v>", "zz", "\"q\"", "A\\B"}; return W[s.Len(8)]; } static Raw Show(const std::string& x) { return V("str", Raw{J(x)}); } };
template<> struct T_<Own> { static Own Make(Src& s) { return {static_cast<int>(s.Next())}; } static Raw Show(const Own& x) { return V("str", Raw{J("own" + std::to_string(x.value))}); } };
template<typename A, typename B> struct T_<std::pair<A, B>>
{
  static std::pair<A, B> Make(Src& s) { A a = T_<A>::Make(s); B b = T_<B>::Make(s); return {a, b}; }
  template<typename P> static Raw Show(const P& x) { return V("pair", Raw{J(std::vector<Raw>{T_<A>::Show(x.first), T_<B>::Show(x.second)})}); }
};
template<typename C, typename E> Raw List(const char* k, const C& c) { std::vector<Raw> o; for (const auto& x : c) o.push_back(T_<E>::Show(x)); return V(k, Raw{J(o)}); }
template<typename T> struct T_<std::vector<T>> { using C = std::vector<T>; static C Make(Src& s) { C c; const size_t n = s.Len(4); for (size_t i = 0; i < n; i++) c.push_back(T_<T>::Make(s)); return c; } static Raw Show(const C& x) { return List<C, T>("seq", x); } };
template<> struct T_<std::vector<bool>> { using C = std::vector<bool>; static C Make(Src& s) { C c; const size_t n = s.Len(4); for (size_t i = 0; i < n; i++) c.push_back(T_<bool>::Make(s)); return c; } static Raw Show(const C& x) { return List<C, bool>("seq", x); } };
template<typename T> struct T_<std::list<T>> { using C = std::list<T>; static C Make(Src& s) { const auto v = T_<std::vector<T>>::Make(s); return C(v.begin(), v.end()); } static Raw Show(const C& x) { return List<C, T>("seq", x); } };
template<typename T> struct T_<std::forward_list<T>> { using C = std::forward_list<T>; static C Make(Src& s) { const auto v = T_<std::vector<T>>::Make(s); return C(v.begin(), v.end()); } static Raw Show(const C& x) { return List<C, T>("seq", x); } };
template<typename T> struct T_<std::deque<T>> { using C = std::deque<T>; static C Make(Src& s) { const auto v = T_<std::vector<T>>::Make(s); return C(v.begin(), v.end()); } static Raw Show(const C& x) { return List<C, T>("seq", x); } };
template<typename T, size_t N> struct T_<std::array<T, N>> { using C = std::array<T, N>; static C Make(Src& s) { C c; for (auto& x : c) x = T_<T>::Make(s); return c; } static Raw Show(const C& x) { return List<C, T>("seq", x); } };
#define SETLIKE(TT) template<typename T> struct T_<TT<T>> { using C = TT<T>; static C Make(Src& s) { const auto v = T_<std::vector<T>>::Make(s); return C(v.begin(), v.end()); } static Raw Show(const C& x) { return List<C, T>("set", x); } };
SETLIKE(std::set) SETLIKE(std::multiset) SETLIKE(std::unordered_set) SETLIKE(std::unordered_multiset)
#define MAPLIKE(TT) template<typename A, typename B> struct T_<TT<A, B>> { using C = TT<A, B>; static C Make(Src& s) { const auto v = T_<std::vector<std::pair<A, B>>>::Make(s); return C(v.begin(), v.end()); } static Raw Show(const C& x) { return List<C, std::pair<A, B>>("map", x); } };
MAPLIKE(std::map) MAPLIKE(std::multimap) MAPLIKE(std::unordered_map) MAPLIKE(std::unordered_multimap)
// ---- Eigen types; numbers in eighths, up to 9 digits before the point
static double E8(Src& s) { return static_cast<double>(s.Next()) / 8.0; }
static Raw I8(double x) { return Raw{J(static_cast<long long>(std::llround(x * 8)))}; }
template<typename M> static std::vector<Raw> Is(const M& m) { std::vector<Raw> o; for (long i = 0; i < m.size(); i++) o.push_back(I8(m(i))); return o; }
#define FIXED(N) template<> struct T_<Eigen::Vector##N##d> { using C = Eigen::Vector##N##d; static C Make(Src& s) { C c; for (long i = 0; i < N; i++) c(i) = E8(s); return c; } static Raw Show(const C& x) { return V("Vector" #N "d", Raw{J(Is(x))}); } };
FIXED(2) FIXED(3) FIXED(4)
template<> struct T_<Eigen::VectorXd> { using C = Eigen::VectorXd; static C Make(Src& s) { C c(static_cast<long>(s.Len(5))); for (long i = 0; i < c.size(); i++) c(i) = E8(s); return c; } static Raw Show(const C& x) { return V("VectorXd", Raw{J(Is(x))}); } };
template<> struct T_<Eigen::MatrixXd>
{
  using C = Eigen::MatrixXd;
  static C Make(Src& s) { const long r = static_cast<long>(s.Len(3)), k = static_cast<long>(s.Len(3)); C c(r, k); for (long i = 0; i < r; i++) for (long j = 0; j < k; j++) c(i, j) = E8(s); return c; }
  static Raw Show(const C& x) { std::vector<Raw> o; if (x.size() > 0) for (long i = 0; i < x.rows(); i++) { std::vector<Raw> q; for (long j = 0; j < x.cols(); j++) q.push_back(I8(x(i, j))); o.push_back(Raw{J(q)}); } return V("MatrixXd", Raw{J(o)}); }
};
template<> struct T_<Eigen::Quaterniond> { using C = Eigen::Quaterniond; static C Make(Src& s) { const double w = E8(s), x = E8(s), y = E8(s), z = E8(s); return C(w, x, y, z); } static Raw Show(const C& q) { return V("Quaterniond", Raw{J(std::vector<Raw>{I8(q.x()), I8(q.y()), I8(q.z()), I8(q.w())})}); } };
template<> struct T_<Eigen::Isometry3d>
{ // the orientation is the identity (other matrices leave rounding noise in the quaternion's text)
  using C = Eigen::Isometry3d;
  static C Make(Src& s) { C c = C::Identity(); for (long i = 0; i < 3; i++) c.translation()(i) = E8(s); return c; }
  static Raw Show(const C& x) { const Eigen::Vector3d t = x.translation(); return V("Isometry3d", Raw{J(std::vector<Raw>{I8(t(0)), I8(t(1)), I8(t(2)), Raw{"0"}, Raw{"0"}, Raw{"0"}, Raw{"8"}})}); }
};
template<typename T> static void Run(Case& c, bool delim, const std::string& sep, Src s)
{
  const T x = T_<T>::Make(s);
  c.Ev("op", "print", "delim", delim, "sep", sep, "x", T_<T>::Show(x), "text", pr::Print(x, delim, sep));
  if (!delim && sep == ", ") { c.Ev("op", "print", "delim", false, "sep", sep, "x", T_<T>::Show(x), "text", pr::Print(x)); c.Ev("op", "print", "delim", true, "sep", sep, "x", T_<T>::Show(x), "text", pr::Print(x, true)); }
}
using namespace Eigen;
template<typename T> using Vec = std::vector<T>;
using Fn = void (*)(Case&, bool, const std::string&, Src);
static const Fn kTypes[] = {
  Run<int>, Run<int64_t>, Run<int16_t>, Run<size_t>, Run<uint8_t>, Run<bool>, Run<double>, Run<std::string>, Run<Own>,
  Run<Vec<int>>, Run<std::list<int>>, Run<std::forward_list<int>>, Run<std::deque<int>>, Run<std::array<int, 3>>, Run<std::array<int, 0>>, Run<std::array<int, 1>>,
  Run<std::set<int>>, Run<std::multiset<int>>, Run<std::unordered_set<int>>, Run<std::unordered_multiset<int>>,
  Run<std::map<int, int>>, Run<std::multimap<int, int>>, Run<std::unordered_map<int, int>>, Run<std::unordered_multimap<int, int>>, Run<std::pair<int, bool>>,
  Run<Vec<bool>>, Run<Vec<uint8_t>>, Run<Vec<std::string>>, Run<Vec<Own>>, Run<Vec<Vec<int>>>, Run<Vec<Vec<Vec<uint8_t>>>>,
  Run<std::list<std::deque<int>>>, Run<std::forward_list<std::array<bool, 2>>>, Run<std::deque<std::list<uint8_t>>>, Run<std::array<std::forward_list<double>, 2>>,
  Run<std::set<Vec<int>>>, Run<std::multiset<std::pair<int, int>>>, Run<std::unordered_set<std::string>>, Run<std::unordered_multiset<uint8_t>>, Run<std::set<std::set<bool>>>,
  Run<std::map<std::string, Vec<int>>>, Run<std::multimap<bool, std::set<int>>>, Run<std::unordered_map<uint8_t, std::pair<int, Vec<bool>>>>, Run<std::unordered_multimap<int, std::map<int, bool>>>,
  Run<std::pair<Vec<int>, std::set<uint8_t>>>, Run<std::pair<std::pair<int, int>, std::pair<bool, uint8_t>>>, Run<Vec<std::pair<std::string, std::map<int, Own>>>>, Run<std::map<Vec<int>, std::map<bool, bool>>>,
  Run<Vector2d>, Run<Vector3d>, Run<Vector4d>, Run<VectorXd>, Run<MatrixXd>, Run<Quaterniond>, Run<Isometry3d>,
  Run<Vec<Vector3d>>, Run<std::map<int, Vector2d>>, Run<std::pair<VectorXd, Quaterniond>>, Run<std::list<Isometry3d>>, Run<std::deque<MatrixXd>>, Run<std::array<Vector4d, 2>>};
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& k, Case& c)
  {
    static const char* kSeps[] = {", ", ",", " ", "; ", "", "->", "[]"};
    while (k.Has())
    {
      const long long t = k.Int(), d = k.Int(), s = k.Int();
      Src src; const long long n = k.Int(); for (long long i = 0; i < n; i++) src.v.push_back(k.Int());
      kTypes[static_cast<size_t>(t) % (sizeof(kTypes) / sizeof(kTypes[0]))](c, d != 0, kSeps[s % 7], src);
    }
  });
}
