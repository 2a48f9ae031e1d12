// Voxel grids as maps (C15) and grid geometry (C16). Lengths are given in units of 1/16.
#include "drv.hpp"
#include "bignew.hpp"
#include <limits>
#include <memory>
#include <unordered_map>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>
using namespace drv;
namespace vg = common_robotics_utilities::voxel_grid;
namespace ser = common_robotics_utilities::serialization;
constexpr double U = 16.0;
using I3 = std::vector<long long>;

static std::vector<I3> g_hooks;
static long long g_raws = 0;

template<typename T, typename B> class PGrid : public vg::VoxelGridBase<T, B>
{
public:
  std::set<I3> deny;
  bool raw = true;
  PGrid() : vg::VoxelGridBase<T, B>() {}
  PGrid(const Eigen::Isometry3d& o, const vg::GridSizes& s, const T& d, const T& b) : vg::VoxelGridBase<T, B>(o, s, d, b) {}
  PGrid(const vg::GridSizes& s, const T& d, const T& b) : vg::VoxelGridBase<T, B>(s, d, b) {}
private:
  std::unique_ptr<vg::VoxelGridBase<T, B>> DoClone() const override { return std::unique_ptr<vg::VoxelGridBase<T, B>>(new PGrid<T, B>(*this)); }
  uint64_t DerivedSerializeSelf(std::vector<uint8_t>& buf, const ser::Serializer<T>&) const override
  {
    const auto b0 = buf.size();
    ser::SerializeMemcpyable<uint8_t>(raw, buf);
    ser::SerializeMemcpyable<uint64_t>(deny.size(), buf);
    for (const auto& d : deny) for (int k = 0; k < 3; k++) ser::SerializeMemcpyable<int64_t>(d[k], buf);
    return buf.size() - b0;
  }
  uint64_t DerivedDeserializeSelf(const std::vector<uint8_t>& buf, const uint64_t off, const ser::Deserializer<T>&) override
  {
    uint64_t at = off;
    raw = ser::DeserializeMemcpyable<uint8_t>(buf, at).Value() != 0; at += 1;
    const uint64_t n = ser::DeserializeMemcpyable<uint64_t>(buf, at).Value(); at += 8;
    deny.clear();
    for (uint64_t i = 0; i < n; i++)
    {
      I3 d;
      for (int k = 0; k < 3; k++) { d.push_back(ser::DeserializeMemcpyable<int64_t>(buf, at).Value()); at += 8; }
      deny.insert(d);
    }
    return at - off;
  }
  bool OnMutableAccess(const int64_t x, const int64_t y, const int64_t z) override
  { const I3 i{x, y, z}; g_hooks.push_back(i); return deny.count(i) == 0; }
  bool OnMutableRawAccess() override { g_raws++; return raw; }
};

static Eigen::Isometry3d Pose(const std::vector<int>& P, const I3& t)
{
  Eigen::Isometry3d o = Eigen::Isometry3d::Identity();
  Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
  for (int k = 0; k < 3; k++) m(k, P[2 * k]) = P[2 * k + 1];
  o.linear() = m;
  o.translation() = Eigen::Vector3d(t[0] / U, t[1] / U, t[2] / U);
  return o;
}
static Raw JP(const std::vector<int>& P)
{
  std::string s = "[";
  for (int k = 0; k < 3; k++) { if (k) s += ","; s += "[" + std::to_string(P[2 * k]) + "," + std::to_string(P[2 * k + 1]) + "]"; }
  return Raw{s + "]"};
}
static I3 T3(Tokens& t) { I3 v; for (int k = 0; k < 3; k++) v.push_back(t.Int()); return v; }
static std::vector<int> P6(Tokens& t) { std::vector<int> v; for (int k = 0; k < 6; k++) v.push_back(static_cast<int>(t.Int())); return v; }
static I3 GI(const vg::GridIndex& i) { return {i.X(), i.Y(), i.Z()}; }
static const char* St(vg::AccessStatus s)
{ return s == vg::AccessStatus::SUCCESS ? "ok" : s == vg::AccessStatus::OUT_OF_BOUNDS ? "oob" : s == vg::AccessStatus::MUTABLE_ACCESS_PROHIBITED ? "deny" : "unknown"; }

template<typename T, typename B> struct Slots
{
  using Base = vg::VoxelGridBase<T, B>;
  using P = PGrid<T, B>;
  using F = vg::VoxelGrid<T, B>;
  const bool policy;
  std::unique_ptr<Base> g[2];
  explicit Slots(bool p) : policy(p) { for (auto& x : g) x = Make(); }
  std::unique_ptr<Base> Make() const { if (policy) return std::unique_ptr<Base>(new P()); return std::unique_ptr<Base>(new F()); }
  static T SerV(const T& v) { return v; }
  using W = typename std::conditional<std::is_same<T, Held>::value, long long, T>::type;
  static uint64_t S(const T& v, std::vector<uint8_t>& b) { return ser::SerializeMemcpyable<W>(static_cast<W>(v), b); }
  static ser::Deserialized<T> Dz(const std::vector<uint8_t>& b, const uint64_t o)
  { const auto d = ser::DeserializeMemcpyable<W>(b, o); return ser::MakeDeserialized<T>(T(d.Value()), d.BytesRead()); }
  // The next value written is a reference to one the grid itself holds (-1: default, -2: outside value).
  long long own = -3;
  const T& Pick(const Base& G, const T& given)
  {
    const long long k = own; own = -3;
    if (k == -3 || !G.IsInitialized()) return given;
    return k == -1 ? G.GetDefaultValue() : k == -2 ? G.GetOOBValue() : G.GetImmutableRawData()[static_cast<size_t>(k % G.GetTotalCells())];
  }

  Raw View()
  {
    std::string s = "[";
    for (int k = 0; k < 2; k++)
    {
      const Base& x = *g[k];
      if (k) s += ",";
      if (!x.IsInitialized()) { s += Obj("init", false).s; continue; }
      std::vector<long long> data, byi, byl;
      const auto& d = x.GetImmutableRawData();
      for (size_t i = 0; i < d.size(); i++)
      {
        data.push_back(static_cast<long long>(d[i]));
        const auto idx = x.DataIndexToGridIndex(static_cast<int64_t>(i));
        const auto q = x.GetIndexImmutable(idx.X(), idx.Y(), idx.Z());
        byi.push_back(q ? static_cast<long long>(q.Value()) : -999);
        const Eigen::Vector4d loc = x.GridIndexToLocation(idx);
        const auto q2 = x.GetLocationImmutable4d(loc);
        byl.push_back(q2 ? static_cast<long long>(q2.Value()) : -999);
      }
      s += Obj("init", true, "def", static_cast<long long>(x.GetDefaultValue()), "oob", static_cast<long long>(x.GetOOBValue()),
               "n", I3{x.GetNumXCells(), x.GetNumYCells(), x.GetNumZCells()}, "data", data, "byi", byi, "byl", byl).s;
    }
    return Raw{s + "]"};
  }

  void Run(Tokens& t, Case& c)
  {
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "own") { own = t.Int(); continue; }
      const int s = static_cast<int>(t.Int());
      Base& G = *g[s];
      g_hooks.clear(); g_raws = 0;
      auto out = [&](auto&&... r) { const auto hooks = g_hooks; const auto raws = g_raws; c.Ev("op", op, "s", s, r..., "hooks", hooks, "raws", raws, "g", View()); };
      if (op == "new")
      {
        const I3 n = T3(t), cs = T3(t); const auto P6v = P6(t); const I3 tr = T3(t);
        const T def = static_cast<T>(t.Int()), oob = static_cast<T>(t.Int());
        const int nd = static_cast<int>(t.Int()); std::vector<I3> deny; for (int i = 0; i < nd; i++) deny.push_back(T3(t));
        bool raw = t.Int() != 0; const int how = static_cast<int>(t.Int());   // 0: ctor, 1: Initialize, 2: default pose ctor, 3: default pose Initialize
        if (!policy) { deny.clear(); raw = true; }
        const vg::GridSizes sz(cs[0] / U, cs[1] / U, cs[2] / U, static_cast<int64_t>(n[0]), static_cast<int64_t>(n[1]), static_cast<int64_t>(n[2]));
        const auto pose = Pose(P6v, tr);
        T oobr = oob;
        if (policy)
        {
          if (how == 0) g[s].reset(new P(pose, sz, def, oob)); else if (how == 2) g[s].reset(new P(sz, def, oob));
          P* q = dynamic_cast<P*>(g[s].get());
          if (!q) { q = new P(); g[s].reset(q); }
          q->deny.clear(); q->raw = true;
          if (how == 1) q->Initialize(pose, sz, def, oob); else if (how == 3) q->Initialize(sz, def, oob);
          q->deny.insert(deny.begin(), deny.end()); q->raw = raw;
        }
        else
        {
          if (how == 0) g[s].reset(new F(pose, sz, def, oob));
          else if (how == 1) { g[s]->Initialize(pose, sz, def, oob); }
          else if (how == 2) g[s].reset(new F(sz, def, oob));
          else if (how == 3) { g[s]->Initialize(sz, def, oob); }
          else if (how == 4) { g[s].reset(new F(pose, sz, def)); oobr = def; }
          else { g[s].reset(new F(sz, def)); oobr = def; }
        }
        std::vector<I3> map;
        for (int64_t d = 0; d < g[s]->GetTotalCells(); d++) map.push_back(GI(g[s]->DataIndexToGridIndex(d)));
        out("n", n, "cs", cs, "P", JP(P6v), "t", tr, "def", static_cast<long long>(def), "oob", static_cast<long long>(oobr), "deny", deny, "raw", raw, "map", map);
      }
      else if (op == "get" || op == "set" || op == "mut")
      {
        const std::string form = t.Str();   // i g | x 3 4
        const I3 at = T3(t); const T v = op == "get" ? T() : static_cast<T>(t.Int()); const bool rv = op == "set" ? t.Int() != 0 : false;
        const double x = at[0] / U, y = at[1] / U, z = at[2] / U;
        const vg::GridIndex gi(at[0], at[1], at[2]); const Eigen::Vector3d p3(x, y, z); const Eigen::Vector4d p4(x, y, z, 1.0);
        const std::string kind = (form == "i" || form == "g") ? "i" : "l";
        if (op == "get")
        {
          const Base& C = G;
          auto q = form == "i" ? C.GetIndexImmutable(at[0], at[1], at[2]) : form == "g" ? C.GetIndexImmutable(gi) : form == "x" ? C.GetLocationImmutable(x, y, z)
                 : form == "3" ? C.GetLocationImmutable3d(p3) : C.GetLocationImmutable4d(p4);
          const std::string st = q.HasValue() == (q.Status() == vg::AccessStatus::SUCCESS) && q.HasValue() == static_cast<bool>(q) ? St(q.Status()) : "muddled";
          out("form", kind, "at", at, "st", st, "v", q.HasValue() ? static_cast<long long>(q.Value()) : 0);
        }
        else if (op == "set")
        {
          vg::AccessStatus st; const T parsed = v; const T& w = rv ? parsed : Pick(G, parsed); const long long was = static_cast<long long>(w); own = -3;
          if (form == "i") st = rv ? G.SetIndex(at[0], at[1], at[2], T(v)) : G.SetIndex(at[0], at[1], at[2], w);
          else if (form == "g") st = rv ? G.SetIndex(gi, T(v)) : G.SetIndex(gi, w);
          else if (form == "x") st = rv ? G.SetLocation(x, y, z, T(v)) : G.SetLocation(x, y, z, w);
          else if (form == "3") st = rv ? G.SetLocation3d(p3, T(v)) : G.SetLocation3d(p3, w);
          else st = rv ? G.SetLocation4d(p4, T(v)) : G.SetLocation4d(p4, w);
          if (!policy && st == vg::AccessStatus::SUCCESS) g_hooks.push_back(GI(kind == "i" ? gi : G.LocationToGridIndex3d(p3)));
          out("form", kind, "at", at, "st", St(st), "v", was);
        }
        else
        {
          auto q = form == "i" ? G.GetIndexMutable(at[0], at[1], at[2]) : form == "g" ? G.GetIndexMutable(gi) : form == "x" ? G.GetLocationMutable(x, y, z)
                 : form == "3" ? G.GetLocationMutable3d(p3) : G.GetLocationMutable4d(p4);
          const std::string st = q.HasValue() == (q.Status() == vg::AccessStatus::SUCCESS) && q.HasValue() == static_cast<bool>(q) ? St(q.Status()) : "muddled";
          long long old = 0;
          if (q.HasValue()) { old = static_cast<long long>(q.Value()); q.Value() = v; }
          if (!policy && q.HasValue()) g_hooks.push_back(GI(kind == "i" ? gi : G.LocationToGridIndex3d(p3)));
          out("form", kind, "at", at, "st", st, "v", static_cast<long long>(v), "old", old);
        }
      }
      else if (op == "rget") { const long long d = t.Int(); long long v = 0; const auto st = Try([&] { v = static_cast<long long>(static_cast<const Base&>(G).GetDataIndexImmutable(d)); }); out("d", d, "st", st, "v", v); }
      else if (op == "rset" || op == "rmut")
      {
        const long long d = t.Int(); const T v = static_cast<T>(t.Int()); const bool rv = t.Int() != 0; T w = v;
        const auto st = Try([&] { if (op == "rmut") G.GetDataIndexMutable(d) = v; else if (rv) G.SetDataIndex(d, T(v)); else G.SetDataIndex(d, w); });
        if (!policy && st == "ok") g_raws++;
        out("d", d, "st", st, "v", static_cast<long long>(v));
      }
      else if (op == "rall")
      {
        const auto v = t.List<long long>(); B b; for (auto x : v) b.push_back(static_cast<T>(x));
        const auto st = Try([&] { G.SetRawData(b); });
        if (!policy && st == "ok") g_raws++;
        out("data", v, "st", st);
      }
      else if (op == "rref")
      {
        const T v = static_cast<T>(t.Int());
        const auto st = Try([&] { B& b = G.GetMutableRawData(); if (G.IsInitialized()) b[0] = v; else throw std::runtime_error("empty"); });
        if (!policy) g_raws++;
        out("st", st, "v", static_cast<long long>(v));
      }
      else if (op == "fill") { const T p = static_cast<T>(t.Int()); const T& v = Pick(G, p); const long long was = static_cast<long long>(v); G.ResetWithNewValue(v); out("v", was); }
      else if (op == "fdef") { G.ResetWithDefault(); out("x", 0); }
      else if (op == "ndef") { const T p = static_cast<T>(t.Int()); const T& v = Pick(G, p); const long long was = static_cast<long long>(v); G.ResetWithNewDefault(v); out("v", was); }
      else if (op == "sdef") { const T p = static_cast<T>(t.Int()); const T& v = Pick(G, p); const long long was = static_cast<long long>(v); G.SetDefaultValue(v); out("v", was); }
      else if (op == "soob") { const T p = static_cast<T>(t.Int()); const T& v = Pick(G, p); const long long was = static_cast<long long>(v); G.SetOOBValue(v); out("v", was); }
      else if (op == "pose") { const auto Pv = P6(t); const I3 tr = T3(t); G.UpdateOriginTransform(Pose(Pv, tr)); out("P", JP(Pv), "t", tr); }
      else if (op == "deny")
      {
        const int nd = static_cast<int>(t.Int()); std::vector<I3> deny; for (int i = 0; i < nd; i++) deny.push_back(T3(t)); bool raw = t.Int() != 0;
        if (policy) { auto& p = static_cast<P&>(G); p.deny = std::set<I3>(deny.begin(), deny.end()); p.raw = raw; } else { deny.clear(); raw = true; }
        out("deny", deny, "raw", raw);
      }
      else if (op == "copy")
      {
        const int to = static_cast<int>(t.Int()), how = static_cast<int>(t.Int());
        if (how == 0) g[to] = G.Clone();
        else if (policy)
        {
          auto& p = static_cast<P&>(G);
          if (how == 1) g[to] = std::unique_ptr<Base>(new P(p));
          else if (how == 2) static_cast<P&>(*g[to]) = p;
          else { P tmp(p); static_cast<P&>(*g[to]) = std::move(tmp); }
        }
        else
        {
          auto& p = static_cast<F&>(G);
          if (how == 1) g[to] = std::unique_ptr<Base>(new F(p));
          else if (how == 2) static_cast<F&>(*g[to]) = p;
          else { F tmp(p); static_cast<F&>(*g[to]) = std::move(tmp); }
        }
        out("t", to, "how", std::string("ok"));
      }
      else if (op == "save")
      {
        const int to = static_cast<int>(t.Int()), off = static_cast<int>(t.Int());
        std::vector<uint8_t> buf(static_cast<size_t>(off), 0xAB); std::string how;
        const bool stat = !policy && (off % 2);
        const uint64_t w = stat ? F::Serialize(static_cast<F&>(G), buf, S) : G.SerializeSelf(buf, S);
        buf.push_back(0xCD);
        uint64_t r = 0;
        if (stat) { auto d = F::Deserialize(buf, static_cast<uint64_t>(off), Dz); r = d.BytesRead(); how = Try([&] { g[to] = std::unique_ptr<Base>(new F(d.Value())); }); }
        else { auto q = to == s ? Make() : std::move(g[to]); how = Try([&] { r = q->DeserializeSelf(buf, static_cast<uint64_t>(off), Dz); }); g[to] = std::move(q); }
        if (how == "ok" && (r != w || buf.size() != static_cast<size_t>(off) + w + 1)) how = "bytes";
        out("t", to, "how", how);
      }
      else if (op == "cut")
      {
        const int by = static_cast<int>(t.Int());
        std::vector<uint8_t> buf; G.SerializeSelf(buf, S);
        buf.resize(buf.size() - std::min<size_t>(buf.size(), static_cast<size_t>(by)));
        auto q = Make();
        const auto how = Try([&] { q->DeserializeSelf(buf, 0, Dz); });
        out("how", how);
      }
      else if (op == "spoil")
      {
        // every byte changed in turn: refused, or a grid whose size and contents agree
        const auto flip = static_cast<uint8_t>(t.Int()); std::vector<uint8_t> buf; G.SerializeSelf(buf, S); std::vector<long long> bad; long long refused = 0;
        if (!std::is_same<T, bool>::value) for (size_t k = 0; k < buf.size(); k++)
        {
          buf[k] ^= flip; auto q = Make(); const auto how = Try([&] { q->DeserializeSelf(buf, 0, Dz); }); buf[k] ^= flip;
          const Base& x = *q; bool fine = how == "err";
          if (how == "ok")
          {
            const auto all = x.GetNumXCells() * x.GetNumYCells() * x.GetNumZCells();
            fine = x.IsInitialized() == (all > 0) && all == x.GetTotalCells() && all == static_cast<int64_t>(x.GetImmutableRawData().size());
            if (fine && x.IsInitialized()) for (int64_t d = 0; d < all; d++) { const auto q2 = x.GetIndexImmutable(x.DataIndexToGridIndex(d)); fine = fine && q2 && &q2.Value() == &x.GetImmutableRawData()[static_cast<size_t>(d)]; }
          }
          if (how == "err") refused++;
          if (!fine) bad.push_back(static_cast<long long>(k));
        }
        out("bad", bad, "some", std::is_same<T, bool>::value || refused > 0);
      }
      else { fprintf(stderr, "op %s\n", op.c_str()); _exit(2); }
    }
  }
};

static double Len(const std::string& s, double unit) { if (s == "nan") return std::nan(""); if (s == "inf") return std::numeric_limits<double>::infinity(); return std::stod(s) * unit; }
static long long LenI(const std::string& s) { if (s == "nan" || s == "inf") return -1; return std::stoll(s); }
static Raw V3(const Eigen::Vector3d& v, double scale) { return Raw{"[" + D(v.x(), scale).s + "," + D(v.y(), scale).s + "," + D(v.z(), scale).s + "]"}; }

static void Geometry(Tokens& t, Case& c)
{
  using G = vg::VoxelGrid<uint8_t>;
  while (t.Has())
  {
    const std::string op = t.Str();
    if (op == "size")
    {
      std::vector<std::string> cs, ask; for (int k = 0; k < 3; k++) cs.push_back(t.Str());
      for (int k = 0; k < 3; k++) ask.push_back(t.Str());
      const bool counts = t.Int() != 0, uni = t.Int() != 0; const double un = t.Dbl();   // the length unit
      vg::GridSizes z;
      const auto how = Try([&] {
        const double a = Len(cs[0], un), b = Len(cs[1], un), d = Len(cs[2], un);
        if (counts)
        {
          const int64_t x = LenI(ask[0]), y = LenI(ask[1]), w = LenI(ask[2]);
          z = uni ? vg::GridSizes(a, x, y, w) : vg::GridSizes(a, b, d, x, y, w);
        }
        else
        {
          const double x = Len(ask[0], un), y = Len(ask[1], un), w = Len(ask[2], un);
          z = uni ? vg::GridSizes(a, x, y, w) : vg::GridSizes(a, b, d, x, y, w);
        }
      });
      std::vector<uint8_t> buf(3, 1);
      const uint64_t w = vg::GridSizes::Serialize(z, buf);
      const auto back = vg::GridSizes::Deserialize(buf, 3);
      const bool saved = back.Value() == z && !(back.Value() != z) && back.BytesRead() == w && buf.size() == 3 + w && back.Value().Valid() == z.Valid() && back.Value().Sizes() == z.Sizes();
      const double s = 1.0 / un;
      std::vector<long long> csi, aski;
      for (int k = 0; k < 3; k++) { csi.push_back(LenI(cs[uni ? 0 : k])); aski.push_back(LenI(ask[k])); }
      const auto n = z.NumCells();
      auto near = [&](double v) { const double q = v * s; return std::fabs(q - std::round(q)) <= 1e-9 * (1 + std::fabs(q)) ? static_cast<long long>(std::llround(q)) : -77777LL; };
      c.Ev("op", op, "cs", csi, "ask", aski, "counts", counts, "how", how, "valid", z.Valid(),
           "cell", I3{near(z.CellXSize()), near(z.CellYSize()), near(z.CellZSize())}, "cellv", z.CellSizes() == Eigen::Vector3d(z.CellXSize(), z.CellYSize(), z.CellZSize()),
           "n", I3{n(0), n(1), n(2)}, "n2", I3{z.NumXCells(), z.NumYCells(), z.NumZCells()},
           "size", I3{near(z.XSize()), near(z.YSize()), near(z.ZSize())}, "sizev", z.Sizes() == Eigen::Vector3d(z.XSize(), z.YSize(), z.ZSize()),
           "total", z.TotalCells(), "uniform", z.UniformCellSize(), "saved", saved);
    }
    else if (op == "vast")
    {
      // cell counts that are powers of two, up to ones too many to number
      const I3 e = T3(t); const bool counts = t.Int() != 0; const double cell = std::ldexp(1.0, static_cast<int>(t.Int())); const double f = t.Dbl();
      const auto cnt = [&](int k) { return static_cast<int64_t>(1) << e[static_cast<size_t>(k)]; };
      vg::GridSizes z;
      const auto how = Try([&] {
        if (counts) z = vg::GridSizes(cell, 2.0 * cell, cell, cnt(0), cnt(1), cnt(2));
        else z = vg::GridSizes(cell, 2.0 * cell, cell, static_cast<double>(cnt(0)) * cell, static_cast<double>(cnt(1)) * cell * 2.0, static_cast<double>(cnt(2)) * cell);
      });
      long long tot = -1, same = 1;
      if (z.Valid())
      {
        for (int k = 0; k < 63; k++) if (z.TotalCells() == (static_cast<int64_t>(1) << k)) tot = k;
        same = z.NumXCells() == cnt(0) && z.NumYCells() == cnt(1) && z.NumZCells() == cnt(2);
        if (tot >= 0)
        {
          const auto at = [&](int k, double q) { return std::min(cnt(k) - 1, static_cast<int64_t>(static_cast<double>(cnt(k)) * q)); };
          for (const double q : {0.0, f, 0.5, 1.0})
          {
            const int64_t x = at(0, q), y = at(1, 1.0 - q), w = at(2, q * f);
            const int64_t d = z.GetDataIndex(x, y, w);
            const auto b = z.GetGridIndexFromDataIndex(d);
            // data indices count z fastest or in any other fixed order: judged by bijection only
            same = same && d >= 0 && d < z.TotalCells() && b.X() == x && b.Y() == y && b.Z() == w && z.IndexInBounds(x, y, w)
                && !z.IndexInBounds(cnt(0), y, w) && !z.IndexInBounds(x, cnt(1), w) && !z.IndexInBounds(x, y, cnt(2)) && z.GetDataIndex(b) == d;
          }
        }
      }
      c.Ev("op", op, "e", e, "how", how, "valid", z.Valid(), "tot", tot, "same", same != 0);
    }
    else if (op == "default")
    {
      vg::GridSizes z; G g;
      const auto how = Try([&] { G h; h.Initialize(z, 1, 2); });
      bool inb = z.IndexInBounds(0, 0, 0) || g.IndexInBounds(0, 0, 0) || g.IsInitialized() || static_cast<bool>(g.GetIndexImmutable(0, 0, 0)) || g.SetIndex(0, 0, 0, 1) == vg::AccessStatus::SUCCESS;
      c.Ev("op", op, "valid", z.Valid(), "total", z.TotalCells() + g.GetTotalCells(), "how", how, "inb", inb);
    }
    else if (op == "pose0")
    {
      const I3 n = T3(t), cs = T3(t);
      const vg::GridSizes z(cs[0] / U, cs[1] / U, cs[2] / U, static_cast<int64_t>(n[0]), static_cast<int64_t>(n[1]), static_cast<int64_t>(n[2]));
      G a(z, 0), b; b.Initialize(z, 0, 1);
      const auto& o = a.GetOriginTransform();
      const bool same = o.matrix() == b.GetOriginTransform().matrix() && a.GetInverseOriginTransform().matrix() == o.inverse().matrix();
      c.Ev("op", op, "size", V3(a.GetSizes(), U), "t2", V3(o.translation(), 2 * U), "ident", same && o.linear() == Eigen::Matrix3d::Identity());
    }
    else if (op == "cells" || op == "loc" || op == "far")
    {
      const I3 n = T3(t), cs = T3(t); const auto Pv = P6(t); const I3 tr = T3(t);
      const vg::GridSizes z(cs[0] / U, cs[1] / U, cs[2] / U, static_cast<int64_t>(n[0]), static_cast<int64_t>(n[1]), static_cast<int64_t>(n[2]));
      G g(Pose(Pv, tr), z, 0);
      if (t.Int()) { G h(z, 0); h.UpdateOriginTransform(Pose(Pv, tr)); g = h; }
      if (op == "cells")
      {
        std::string tab = "[";
        for (int64_t x = 0; x < n[0]; x++) for (int64_t y = 0; y < n[1]; y++) for (int64_t w = 0; w < n[2]; w++)
        {
          const vg::GridIndex i(x, y, w);
          const int64_t d = g.GridIndexToDataIndex(i);
          const int64_t d2 = g.GridIndexToDataIndex(x, y, w);
          const auto back = g.DataIndexToGridIndex(d); const auto back2 = z.GetGridIndexFromDataIndex(d2);
          const Eigen::Vector4d cg = g.GridIndexToLocationInGridFrame(i), cg2 = g.GridIndexToLocationInGridFrame(x, y, w), cg3 = z.IndexToLocationInGridFrame(i);
          const Eigen::Vector4d cw = g.GridIndexToLocation(i), cw2 = g.GridIndexToLocation(x, y, w);
          const auto at = g.LocationToGridIndex4d(cw); const auto at2 = g.LocationInGridFrameToGridIndex4d(cg);
          const bool agree = d == d2 && back == back2 && !(back != back2) && cg == cg2 && cg == cg3 && cw == cw2 && at == at2 && cg(3) == 1.0 && cw(3) == 1.0 && z.GetDataIndex(i) == d && z.GetDataIndex(x, y, w) == d;
          const uint64_t h1 = g.HashDataIndex(i), h2 = g.HashDataIndex(x, y, w);
          if (tab.size() > 1) tab += ",";
          tab += Obj("i", GI(i), "d", agree ? d : -5, "back", GI(back), "hash", h1 == h2 ? static_cast<long long>(h1) : -5, "cg", V3(cg.head<3>(), 2 * U), "cw", V3(cw.head<3>(), 2 * U),
                     "cell", GI(at), "inb", g.IndexInBounds(i) && g.IndexInBounds(x, y, w) && z.IndexInBounds(i) && z.IndexInBounds(x, y, w) && g.LocationInBounds4d(cw)).s;
        }
        c.Ev("op", op, "n", n, "cs", cs, "P", JP(Pv), "t", tr, "tab", Raw{tab + "]"});
      }
      else if (op == "loc")
      {
        const I3 w = T3(t);
        const double x = w[0] / U, y = w[1] / U, zz = w[2] / U;
        const Eigen::Vector3d p3(x, y, zz); const Eigen::Vector4d p4(x, y, zz, 1.0);
        const Eigen::Vector3d q3 = g.GetInverseOriginTransform() * p3; const Eigen::Vector4d q4(q3.x(), q3.y(), q3.z(), 1.0);
        std::vector<std::pair<vg::GridIndex, bool>> r;
        r.emplace_back(g.LocationToGridIndex(x, y, zz), g.LocationInBounds(x, y, zz));
        r.emplace_back(g.LocationToGridIndex3d(p3), g.LocationInBounds3d(p3));
        r.emplace_back(g.LocationToGridIndex4d(p4), g.LocationInBounds4d(p4));
        r.emplace_back(g.LocationInGridFrameToGridIndex(q3.x(), q3.y(), q3.z()), static_cast<bool>(g.GetLocationImmutable(x, y, zz)));
        r.emplace_back(g.LocationInGridFrameToGridIndex3d(q3), static_cast<bool>(g.GetLocationImmutable3d(p3)));
        r.emplace_back(g.LocationInGridFrameToGridIndex4d(q4), static_cast<bool>(g.GetLocationImmutable4d(p4)));
        std::string rr = "[";
        for (auto& a : r) { if (rr.size() > 1) rr += ","; rr += Obj("i", GI(a.first), "inb", a.second && g.IndexInBounds(a.first)).s; if (g.IndexInBounds(a.first) != a.second) rr.replace(rr.size() - 1, 1, ",\"bad\":1}"); }
        const double bw = (w[0] % 2) ? 0.0 : 2.0;
        const bool badw = Try([&] { g.LocationInGridFrameToGridIndex4d(Eigen::Vector4d(x, y, zz, bw)); }) == "err" && Try([&] { g.LocationToGridIndex4d(Eigen::Vector4d(x, y, zz, bw)); }) == "err"
            && Try([&] { g.SetLocation4d(Eigen::Vector4d(x, y, zz, bw), 1); }) == "err";
        c.Ev("op", op, "n", n, "cs", cs, "P", JP(Pv), "t", tr, "w", w, "r", Raw{rr + "]"}, "badw", badw);
      }
      else
      {
        // a location far away in the direction of one axis
        const int k = static_cast<int>(t.Int()); const double f = t.Dbl();
        Eigen::Vector3d p(0.5, 0.5, 0.5); p = g.GetOriginTransform() * p; p(k) = f;
        std::vector<bool> b{g.LocationInBounds3d(p), g.LocationInBounds(p.x(), p.y(), p.z()), static_cast<bool>(g.GetLocationImmutable3d(p)), g.SetLocation3d(p, 1) != vg::AccessStatus::OUT_OF_BOUNDS};
        c.Ev("op", op, "r", b);
      }
    }
    else if (op == "eq")
    {
      const I3 a = T3(t), b = T3(t);
      const vg::GridIndex x(a[0], a[1], a[2]), y(b[0], b[1], b[2]);
      const bool hs = !(x == y) || std::hash<vg::GridIndex>()(x) == std::hash<vg::GridIndex>()(y);
      vg::GridIndex m; m.X() = a[0]; m.Y() = a[1]; m.Z() = a[2];
      c.Ev("op", op, "a", a, "b", b, "r", x == y && hs && m == x, "ne", x != y);
    }
    else { fprintf(stderr, "op %s\n", op.c_str()); _exit(2); }
  }
}

int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    const std::string kind = t.Str();
    if (kind == "geo") { Geometry(t, c); return; }
    c.Head("kind", kind);
    if (kind == "p") { Slots<Held, std::vector<Held>> s(true); s.Run(t, c); }
    else if (kind == "f") { Slots<Held, std::vector<Held>> s(false); s.Run(t, c); }
    else if (kind == "d") { Slots<int64_t, std::vector<int64_t>> s(true); s.Run(t, c); }
    else { Slots<double, std::vector<double>> s(false); s.Run(t, c); }
  });
}
