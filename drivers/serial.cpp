// Reading and writing byte buffers (C18). Types are built from the codecs below; their
// trees (see Codec.tla) are printed with --types. A leaf is recorded as its bytes, most
// significant first.
#include "drv.hpp"
#include <array>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <common_robotics_utilities/serialization.hpp>
using namespace drv;
namespace ser = common_robotics_utilities::serialization;
using Buf = std::vector<uint8_t>;

template<typename T> T FromBytes(const std::vector<int>& b)
{
  uint64_t u = 0; for (int x : b) u = (u << 8) | static_cast<uint64_t>(x);
  if (sizeof(T) == 8) { T t; memcpy(&t, &u, 8); return t; }
  if (sizeof(T) == 4) { const uint32_t w = static_cast<uint32_t>(u); T t; memcpy(&t, &w, sizeof(T)); return t; }
  if (sizeof(T) == 2) { const uint16_t w = static_cast<uint16_t>(u); T t; memcpy(&t, &w, sizeof(T)); return t; }
  const uint8_t w = static_cast<uint8_t>(u); T t; memcpy(&t, &w, 1); return t;
}
template<typename T> std::vector<int> ToBytes(const T& t)
{
  uint64_t u = 0;
  if (sizeof(T) == 8) memcpy(&u, &t, sizeof(T));
  else if (sizeof(T) == 4) { uint32_t w; memcpy(&w, &t, sizeof(T)); u = w; }
  else if (sizeof(T) == 2) { uint16_t w; memcpy(&w, &t, sizeof(T)); u = w; }
  else { uint8_t w; memcpy(&w, &t, 1); u = w; }
  std::vector<int> b; for (int k = sizeof(T) - 1; k >= 0; k--) b.push_back(static_cast<int>((u >> (8 * k)) & 255));
  return b;
}
static std::string B(bool b) { return b ? "true" : "false"; }

template<typename T, bool Net> struct Leaf
{
  using V = T;
  static std::string Ty() { return "[\"leaf\"," + std::to_string(sizeof(T)) + "," + B(Net) + "]"; }
  static V Parse(Tokens& t) { std::vector<int> b; for (size_t i = 0; i < sizeof(T); i++) b.push_back(static_cast<int>(t.Int())); return FromBytes<T>(b); }
  static std::string Js(const V& v) { return J(ToBytes<T>(v)); }
  static ser::Serializer<V> S() { return [](const V& v, Buf& b) { if constexpr (Net) return ser::SerializeNetworkMemcpyable<T>(v, b); else return ser::SerializeMemcpyable<T>(v, b); }; }
  static ser::Deserializer<V> D() { return [](const Buf& b, const uint64_t o) { if constexpr (Net) return ser::DeserializeNetworkMemcpyable<T>(b, o); else return ser::DeserializeMemcpyable<T>(b, o); }; }
};
template<typename C> std::string JsAll(const typename C::V&);
template<typename C, typename It> std::string List(It a, It b)
{ std::string o = "["; bool first = true; for (; a != b; ++a) { if (!first) o += ","; first = false; o += C::Js(*a); } return o + "]"; }

// how: 0 generic vector, 1 memcpyable vector
template<typename C, bool Net, int How = 0, typename Vec = std::vector<typename C::V>> struct VecC
{
  using V = Vec; using T = typename C::V;
  static std::string Ty() { return "[\"vec\"," + C::Ty() + "," + B(Net) + "]"; }
  static V Parse(Tokens& t) { const auto n = t.Int(); V v(static_cast<size_t>(n)); for (long long i = 0; i < n; i++) v[static_cast<size_t>(i)] = C::Parse(t); return v; }
  static std::string Js(const V& v) { std::string o = "["; for (size_t i = 0; i < static_cast<size_t>(v.size()); i++) { if (i) o += ","; const T x = v[i]; o += C::Js(x); } return o + "]"; }
  static ser::Serializer<V> S()
  {
    return [](const V& v, Buf& b) -> uint64_t {
      if constexpr (How == 0) { if constexpr (Net) return ser::SerializeNetworkVectorLike<T, V>(v, b, C::S()); else return ser::SerializeVectorLike<T, V>(v, b, C::S()); }
      else { if constexpr (Net) return ser::SerializeNetworkMemcpyableVectorLike<T, V>(v, b); else return ser::SerializeMemcpyableVectorLike<T, V>(v, b); }
    };
  }
  static ser::Deserializer<V> D()
  {
    return [](const Buf& b, const uint64_t o) -> ser::Deserialized<V> {
      if constexpr (How == 0) { if constexpr (Net) return ser::DeserializeNetworkVectorLike<T, V>(b, o, C::D()); else return ser::DeserializeVectorLike<T, V>(b, o, C::D()); }
      else { if constexpr (Net) return ser::DeserializeNetworkMemcpyableVectorLike<T, V>(b, o); else return ser::DeserializeMemcpyableVectorLike<T, V>(b, o); }
    };
  }
};
template<typename Ch, bool Net> struct Str
{
  using V = std::basic_string<Ch>; using C = Leaf<Ch, Net>;
  static std::string Ty() { return "[\"vec\"," + C::Ty() + "," + B(Net) + "]"; }
  static V Parse(Tokens& t) { const auto n = t.Int(); V v; for (long long i = 0; i < n; i++) v.push_back(C::Parse(t)); return v; }
  static std::string Js(const V& v) { return List<C>(v.begin(), v.end()); }
  static ser::Serializer<V> S() { return [](const V& v, Buf& b) { if constexpr (Net) return ser::SerializeNetworkString<Ch>(v, b); else return ser::SerializeString<Ch>(v, b); }; }
  static ser::Deserializer<V> D() { return [](const Buf& b, const uint64_t o) { if constexpr (Net) return ser::DeserializeNetworkString<Ch>(b, o); else return ser::DeserializeString<Ch>(b, o); }; }
};
template<typename A, typename Bb> struct PairC
{
  using V = std::pair<typename A::V, typename Bb::V>;
  static std::string Ty() { return "[\"pair\"," + A::Ty() + "," + Bb::Ty() + "]"; }
  static V Parse(Tokens& t) { typename A::V a = A::Parse(t); typename Bb::V b = Bb::Parse(t); return V(a, b); }
  template<typename P> static std::string Js(const P& v) { return "[" + A::Js(v.first) + "," + Bb::Js(v.second) + "]"; }
  static ser::Serializer<V> S() { return [](const V& v, Buf& b) { return ser::SerializePair<typename A::V, typename Bb::V>(v, b, A::S(), Bb::S()); }; }
  static ser::Deserializer<V> D() { return [](const Buf& b, const uint64_t o) { return ser::DeserializePair<typename A::V, typename Bb::V>(b, o, A::D(), Bb::D()); }; }
};
template<typename A, typename Bb, bool Net, typename M = std::map<typename A::V, typename Bb::V>> struct MapC
{
  using V = M; using K = typename A::V; using W = typename Bb::V;
  static std::string Ty() { return "[\"map\"," + A::Ty() + "," + Bb::Ty() + "," + B(Net) + "]"; }
  static V Parse(Tokens& t) { const auto n = t.Int(); V v; for (long long i = 0; i < n; i++) { const auto p = PairC<A, Bb>::Parse(t); v.insert(p); } return v; }
  static std::string Js(const V& v) { return List<PairC<A, Bb>>(v.begin(), v.end()); }
  static ser::Serializer<V> S() { return [](const V& v, Buf& b) { if constexpr (Net) return ser::SerializeNetworkMapLike<K, W, V>(v, b, A::S(), Bb::S()); else return ser::SerializeMapLike<K, W, V>(v, b, A::S(), Bb::S()); }; }
  static ser::Deserializer<V> D() { return [](const Buf& b, const uint64_t o) { if constexpr (Net) return ser::DeserializeNetworkMapLike<K, W, V>(b, o, A::D(), Bb::D()); else return ser::DeserializeMapLike<K, W, V>(b, o, A::D(), Bb::D()); }; }
};
template<typename A, bool Net, bool Multi = false, typename St = std::set<typename A::V>> struct SetC
{
  using V = St; using K = typename A::V;
  static std::string Ty() { return std::string(Multi ? "[\"mset\"," : "[\"set\",") + A::Ty() + "," + B(Net) + "]"; }
  static V Parse(Tokens& t) { const auto n = t.Int(); V v; for (long long i = 0; i < n; i++) v.insert(A::Parse(t)); return v; }
  static std::string Js(const V& v) { return List<A>(v.begin(), v.end()); }
  static ser::Serializer<V> S() { return [](const V& v, Buf& b) { if constexpr (Net) return ser::SerializeNetworkSetLike<K, V>(v, b, A::S()); else return ser::SerializeSetLike<K, V>(v, b, A::S()); }; }
  static ser::Deserializer<V> D() { return [](const Buf& b, const uint64_t o) { if constexpr (Net) return ser::DeserializeNetworkSetLike<K, V>(b, o, A::D()); else return ser::DeserializeSetLike<K, V>(b, o, A::D()); }; }
};
using F8 = Leaf<double, false>;
template<typename E, int N, uint64_t (*Ser)(const E&, Buf&), ser::Deserialized<E> (*De)(const Buf&, const uint64_t)> struct FixC
{
  using V = E;
  static double* P(V& v) { if constexpr (std::is_same<V, Eigen::Quaterniond>::value) return v.coeffs().data(); else if constexpr (std::is_same<V, Eigen::Isometry3d>::value) return v.matrix().data(); else return v.data(); }
  static std::string Ty() { return "[\"fix\"," + F8::Ty() + "," + std::to_string(N) + "]"; }
  static V Parse(Tokens& t) { V v; for (int i = 0; i < N; i++) P(v)[i] = F8::Parse(t); return v; }
  static std::string Js(const V& v0) { V v = v0; return List<F8>(P(v), P(v) + N); }
  static ser::Serializer<V> S() { return Ser; }
  static ser::Deserializer<V> D() { return De; }
};
struct VecXd
{
  using V = Eigen::VectorXd;
  static std::string Ty() { return "[\"vec\"," + F8::Ty() + ",false]"; }
  static V Parse(Tokens& t) { const auto n = t.Int(); V v(n); for (long long i = 0; i < n; i++) v(i) = F8::Parse(t); return v; }
  static std::string Js(const V& v) { return List<F8>(v.data(), v.data() + v.size()); }
  static ser::Serializer<V> S() { return ser::SerializeVectorXd; }
  static ser::Deserializer<V> D() { return ser::DeserializeVectorXd; }
};
struct MatXd
{
  using V = Eigen::MatrixXd;
  static std::string Ty() { return "[\"mat\"," + F8::Ty() + ",false]"; }
  static V Parse(Tokens& t) { const auto r = t.Int(), k = t.Int(); V v(r, k); for (long long j = 0; j < k; j++) for (long long i = 0; i < r; i++) v(i, j) = F8::Parse(t); return v; }
  static std::string Js(const V& v) { std::vector<double> x; for (int j = 0; j < v.cols(); j++) for (int i = 0; i < v.rows(); i++) x.push_back(v(i, j)); return "[" + std::to_string(v.rows()) + "," + std::to_string(v.cols()) + "," + List<F8>(x.begin(), x.end()) + "]"; }
  static ser::Serializer<V> S() { return ser::SerializeMatrixXd; }
  static ser::Deserializer<V> D() { return ser::DeserializeMatrixXd; }
};

struct Any
{
  virtual ~Any() {}
  virtual std::string Ty() = 0;
  virtual void Ser(Tokens&, Case&, Buf&) = 0;
  virtual void De(Case&, const Buf&, uint64_t at) = 0;
  virtual void Cuts(Case&, const Buf&, uint64_t at, uint64_t from, uint64_t to) = 0;
  virtual void Inp(Tokens&, Case&, Buf&, uint64_t) { fprintf(stderr, "no in-place form\n"); _exit(2); }
  virtual void Empty(Case&) = 0;
};
template<typename C> struct Of : Any
{
  std::string Ty() override { return C::Ty(); }
  void Ser(Tokens& t, Case& c, Buf& b) override
  {
    const typename C::V v = C::Parse(t);
    const uint64_t n = C::S()(v, b);
    c.Ev("op", "ser", "ty", Raw{C::Ty()}, "v", Raw{C::Js(v)}, "n", n, "buf", b);
  }
  void De(Case& c, const Buf& b0, uint64_t at) override
  {
    const Buf b(b0.begin(), b0.end());  // exactly as large as its contents
    std::string v = "[]"; uint64_t n = 0;
    const std::string st = Try([&] { const auto d = C::D()(b, at); n = d.BytesRead(); v = C::Js(d.Value()); });
    c.Ev("op", "de", "ty", Raw{C::Ty()}, "at", at, "st", st, "n", n, "v", Raw{v});
  }
  void Cuts(Case& c, const Buf& b0, uint64_t at, uint64_t from, uint64_t to) override
  {
    std::vector<std::string> sts;
    for (uint64_t k = from; k <= to; k++)
    {
      const Buf b(b0.begin(), b0.begin() + static_cast<long>(k));
      sts.push_back(Try([&] { const auto d = C::D()(b, at); (void)d.Value(); }));
    }
    c.Ev("op", "cuts", "ty", Raw{C::Ty()}, "at", at, "from", from, "sts", sts);
  }
  void Empty(Case& c) override
  {
    ser::Deserialized<typename C::V> d; std::vector<std::string> sts;
    sts.push_back(Try([&] { (void)d.BytesRead(); }));
    sts.push_back(Try([&] { const auto& k = d; (void)k.Value(); }));
    sts.push_back(Try([&] { (void)d.MutableValue(); }));
    sts.push_back(Try([&] { const typename C::V v{}; ser::MakeDeserialized(v, 0); }));
    c.Ev("op", "empty", "has", d.HasValue(), "sts", sts);
  }
};
template<typename T> struct OfNet : Of<Leaf<T, true>>
{
  void Inp(Tokens& t, Case& c, Buf& b, uint64_t at) override
  {
    const T v = Leaf<T, true>::Parse(t); uint64_t n = 0;
    const std::string st = Try([&] { n = ser::SerializeNetworkMemcpyableInPlace<T>(v, b, at); });
    c.Ev("op", "inp", "at", at, "v", Raw{Leaf<T, true>::Js(v)}, "st", st, "n", n, "buf", b);
  }
};
template<bool N> using I1 = Leaf<int8_t, N>;
template<bool N> using U1 = Leaf<uint8_t, N>;
template<bool N> using U2 = Leaf<uint16_t, N>;
template<bool N> using I4 = Leaf<int32_t, N>;
template<bool N> using I8 = Leaf<int64_t, N>;
template<bool N> using D8 = Leaf<double, N>;
template<bool N> using F4 = Leaf<float, N>;
template<typename V> using AV = std::vector<V, Eigen::aligned_allocator<V>>;
using V2 = FixC<Eigen::Vector2d, 2, ser::SerializeVector2d, ser::DeserializeVector2d>;
using V3 = FixC<Eigen::Vector3d, 3, ser::SerializeVector3d, ser::DeserializeVector3d>;
using V4 = FixC<Eigen::Vector4d, 4, ser::SerializeVector4d, ser::DeserializeVector4d>;
using Qd = FixC<Eigen::Quaterniond, 4, ser::SerializeQuaterniond, ser::DeserializeQuaterniond>;
using Iso = FixC<Eigen::Isometry3d, 16, ser::SerializeIsometry3d, ser::DeserializeIsometry3d>;
static std::map<std::string, std::unique_ptr<Any>> Reg()
{
  std::map<std::string, std::unique_ptr<Any>> r;
#define R(n, ...) r[n] = std::make_unique<Of<__VA_ARGS__>>()
#define RB(n, X) R("h" n, X<false>); R("n" n, X<true>)
  r["ni8"] = std::make_unique<OfNet<int8_t>>(); r["nu8"] = std::make_unique<OfNet<uint8_t>>(); r["ni16"] = std::make_unique<OfNet<int16_t>>(); r["nu16"] = std::make_unique<OfNet<uint16_t>>();
  r["ni32"] = std::make_unique<OfNet<int32_t>>(); r["nu32"] = std::make_unique<OfNet<uint32_t>>(); r["ni64"] = std::make_unique<OfNet<int64_t>>(); r["nu64"] = std::make_unique<OfNet<uint64_t>>();
  r["nf32"] = std::make_unique<OfNet<float>>(); r["nf64"] = std::make_unique<OfNet<double>>();
  R("hi8", Leaf<int8_t, false>); R("hu8", Leaf<uint8_t, false>); R("hi16", Leaf<int16_t, false>); R("hu32", Leaf<uint32_t, false>); R("hi64", Leaf<int64_t, false>); R("hf32", Leaf<float, false>); R("hf64", Leaf<double, false>); R("hbool", Leaf<bool, false>);
  R("hstr", Str<char, false>); R("nstr", Str<char, true>); R("hwstr", Str<wchar_t, false>); R("hu16str", Str<char16_t, false>);
  R("hvi4", VecC<I4<false>, false>); R("nvi4", VecC<I4<true>, true>); R("hmi4", VecC<I4<false>, false, 1>); R("nmi4", VecC<I4<true>, true, 1>);
  R("hvu1", VecC<U1<false>, false>); R("nvu1", VecC<U1<true>, true>); R("hmu1", VecC<U1<false>, false, 1>); R("nmu1", VecC<U1<true>, true, 1>);
  R("hvd8", VecC<D8<false>, false>); R("nvd8", VecC<D8<true>, true>); R("hmd8", VecC<D8<false>, false, 1>); R("nmd8", VecC<D8<true>, true, 1>);
  R("nmu2", VecC<U2<true>, true, 1>); R("hvbool", VecC<Leaf<bool, false>, false>); R("hvstr", VecC<Str<char, false>, false>); R("nvstr", VecC<Str<char, true>, true>);
  R("hvv", VecC<VecC<I4<false>, false, 1>, false>); R("nvv", VecC<VecC<I4<true>, true, 1>, true>); R("mixv", VecC<VecC<U2<true>, false>, true>); R("hvvv", VecC<VecC<VecC<U1<false>, false>, false>, false>);
  R("hpair", PairC<I4<false>, Str<char, false>>); R("npair", PairC<D8<true>, U2<true>>); R("hvpair", VecC<PairC<U1<false>, VecC<I4<false>, false>>, false>);
  R("hmap", MapC<I4<false>, D8<false>, false>); R("nmap", MapC<I4<true>, U1<true>, true>); R("humap", MapC<I4<false>, Str<char, false>, false, std::unordered_map<int32_t, std::string>>); R("numap", MapC<Str<char, true>, I8<true>, true, std::unordered_map<std::string, int64_t>>);
  R("hmapv", MapC<Str<char, false>, VecC<I4<false>, false, 1>, false>); R("nmapm", MapC<U1<true>, MapC<U1<true>, U2<true>, true>, true>); R("hmaps", MapC<PairC<U1<false>, U1<false>>, SetC<I4<false>, false>, false>);
  R("hset", SetC<I4<false>, false>); R("nset", SetC<I8<true>, true>); R("hmset", SetC<U1<false>, false, true, std::multiset<uint8_t>>); R("nmset", SetC<U2<true>, true, true, std::multiset<uint16_t>>);
  R("huset", SetC<I8<false>, false, false, std::unordered_set<int64_t>>); R("hsets", SetC<Str<char, false>, false>); R("nvset", VecC<SetC<U1<true>, true>, true>);
  R("vecx", VecXd); R("mat", MatXd); R("v2", V2); R("v3", V3); R("v4", V4); R("quat", Qd); R("iso", Iso);
  R("vv3", VecC<V3, false>); R("vv4", VecC<V4, false, 0, AV<Eigen::Vector4d>>); R("mv4", MapC<I4<false>, V2, false>); R("vmat", VecC<MatXd, false>); R("pvecx", PairC<VecXd, MatXd>); R("nviso", VecC<Iso, true, 0, AV<Eigen::Isometry3d>>);
  return r;
}
// Collections of many items: `per` bytes each after `head` bytes of counts.
template<typename C, typename F> static void Big(Case& c, const char* name, size_t n, size_t per, size_t head, size_t off, const F& fill)
{
  typename C::V v = fill(n); Buf b(off, 0xc3);
  const uint64_t wrote = C::S()(v, b); const size_t size = b.size(); b.push_back(0x77);
  bool same = false; uint64_t read = 0; std::vector<std::string> cut;
  const std::string st = Try([&] { const auto d = C::D()(b, off); read = d.BytesRead(); same = d.Value() == v; });
  for (const size_t less : {size_t(1), per, size / 2, size - off - 1, n > 65536 ? 65536 * per : per})
    cut.push_back(Try([&] { const Buf x(b.begin(), b.begin() + static_cast<long>(size - less)); C::D()(x, off); }));
  c.Ev("op", "big", "ty", name, "n", n, "per", per, "head", head, "st", st, "wrote", wrote, "size", size - off, "read", read, "same", same, "cut", cut);
}
static void Bigs(Tokens& t, Case& c)
{
  const auto n = static_cast<size_t>(t.Int()), off = static_cast<size_t>(t.Int()); const auto seed = static_cast<uint64_t>(t.Int());
  const auto h = [&](size_t i) { uint64_t z = (seed + i) * 0x9e3779b97f4a7c15ull; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; return z ^ (z >> 32); };
  const auto str = [&](size_t k) { std::string s; for (size_t i = 0; i < k; i++) s.push_back(static_cast<char>(h(i))); return s; };
  const auto vec = [&](auto x) { return [&h](size_t k) { std::vector<decltype(x)> v; for (size_t i = 0; i < k; i++) v.push_back(static_cast<decltype(x)>(h(i) >> 11)); return v; }; };
  Big<Str<char, false>>(c, "str", n, 1, 8, off, str); Big<Str<char, true>>(c, "nstr", n, 1, 8, off, str);
  Big<VecC<I4<false>, false>>(c, "vi4", n, 4, 8, off, vec(int32_t())); Big<VecC<I4<true>, true>>(c, "nvi4", n, 4, 8, off, vec(int32_t()));
  Big<VecC<U1<false>, false, 1>>(c, "mu1", n, 1, 8, off, vec(uint8_t())); Big<VecC<U2<true>, true, 1>>(c, "nmu2", n, 2, 8, off, vec(uint16_t()));
  Big<VecC<D8<false>, false, 1>>(c, "md8", n, 8, 8, off, vec(double())); Big<VecC<D8<true>, true, 1>>(c, "nmd8", n, 8, 8, off, vec(double()));
  Big<VecC<Leaf<bool, false>, false>>(c, "vbool", n, 1, 8, off, [&](size_t k) { std::vector<bool> v; for (size_t i = 0; i < k; i++) v.push_back(h(i) & 16); return v; });
  Big<SetC<I4<false>, false>>(c, "set", n, 4, 8, off, [&](size_t k) { std::set<int32_t> v; for (size_t i = 0; i < k; i++) v.insert(static_cast<int32_t>(i * 3)); return v; });
  Big<MapC<I4<false>, D8<false>, false>>(c, "map", n, 12, 8, off, [&](size_t k) { std::map<int32_t, double> v; for (size_t i = 0; i < k; i++) v[static_cast<int32_t>(i) - 70] = static_cast<double>(h(i) >> 12); return v; });
  Big<VecXd>(c, "vecx", n, 8, 8, off, [&](size_t k) { Eigen::VectorXd v(static_cast<long>(k)); for (size_t i = 0; i < k; i++) v(static_cast<long>(i)) = static_cast<double>(h(i) >> 12); return v; });
}
int main(int argc, char** argv)
{
  auto reg = Reg();
  if (argc == 2 && std::string(argv[1]) == "--types")
  { std::string o; for (auto& p : reg) o += (o.empty() ? "{" : ",") + J(p.first) + ":" + p.second->Ty(); printf("%s}\n", o.c_str()); return 0; }
  return Main(argc, argv, [&](Tokens& t, Case& c) {
    Buf b;
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "bigs") { Bigs(t, c); continue; }
      if (op == "poke") { const auto at = t.Int(), v = t.Int(); b[static_cast<size_t>(at)] = static_cast<uint8_t>(v); c.Ev("op", op, "at", at, "v", v, "buf", b); continue; }
      Any& a = *reg.at(t.Str());
      if (op == "ser") a.Ser(t, c, b);
      else if (op == "de") { const auto at = t.Int(); a.De(c, b, static_cast<uint64_t>(at)); }
      else if (op == "cuts") { const auto at = t.Int(), f = t.Int(), to = t.Int(); a.Cuts(c, b, static_cast<uint64_t>(at), static_cast<uint64_t>(f), static_cast<uint64_t>(to)); }
      else if (op == "inp") { const auto at = t.Int(); a.Inp(t, c, b, static_cast<uint64_t>(at)); }
      else if (op == "empty") a.Empty(c);
      else _exit(2);
    }
  });
}
