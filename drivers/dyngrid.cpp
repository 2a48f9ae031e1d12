// Chunked voxel grids (C17). Lengths in units of 1/16.
#include "drv.hpp"
#include "bignew.hpp"
#include <memory>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
using namespace drv;
namespace vg = common_robotics_utilities::voxel_grid;
namespace ser = common_robotics_utilities::serialization;
constexpr double U = 16.0;
using I3 = std::vector<long long>;
using T = Held;
using Base = vg::DynamicSpatialHashedVoxelGridBase<T>;
using F = vg::DynamicSpatialHashedVoxelGrid<T>;
static std::vector<I3> g_hooks;
static long long g_raws = 0;
// Where the case happens: whole chunks away from the origin of the grid frame; every coordinate recorded is relative to it.
static Eigen::Vector3d g_far(0, 0, 0);
static Eigen::Vector4d Near(const Eigen::Vector4d& p) { return Eigen::Vector4d(p(0) - g_far(0), p(1) - g_far(1), p(2) - g_far(2), p(3)); }
static long long Unit(double v) { const double s = v * U; return s == std::floor(s) && std::fabs(s) < 1e9 ? static_cast<long long>(s) : -77777777LL; }

class P : public Base
{
public:
  std::set<I3> deny; bool raw = true; long long left = -1; I3 cs{1, 1, 1};
  P() : Base() {}
  P(const Eigen::Isometry3d& o, const vg::GridSizes& s, const T& d, const size_t e) : Base(o, s, d, e) {}
  P(const vg::GridSizes& s, const T& d, const size_t e) : Base(s, d, e) {}
private:
  std::unique_ptr<Base> DoClone() const override { return std::unique_ptr<Base>(new P(*this)); }
  uint64_t DerivedSerializeSelf(std::vector<uint8_t>& buf, const ser::Serializer<T>&) const override
  {
    const auto b0 = buf.size();
    ser::SerializeMemcpyable<uint8_t>(raw, buf); ser::SerializeMemcpyable<int64_t>(left, buf);
    for (int k = 0; k < 3; k++) ser::SerializeMemcpyable<int64_t>(cs[k], buf);
    ser::SerializeMemcpyable<uint64_t>(deny.size(), buf);
    for (const auto& d : deny) for (int k = 0; k < 3; k++) ser::SerializeMemcpyable<int64_t>(d[k], buf);
    return buf.size() - b0;
  }
  uint64_t DerivedDeserializeSelf(const std::vector<uint8_t>& buf, const uint64_t off, const ser::Deserializer<T>&) override
  {
    uint64_t at = off;
    auto i64 = [&] { const auto v = ser::DeserializeMemcpyable<int64_t>(buf, at).Value(); at += 8; return v; };
    raw = ser::DeserializeMemcpyable<uint8_t>(buf, at).Value() != 0; at += 1;
    left = i64(); for (int k = 0; k < 3; k++) cs[k] = i64();
    const auto n = i64(); deny.clear();
    for (int64_t i = 0; i < n; i++) { I3 d; for (int k = 0; k < 3; k++) d.push_back(i64()); deny.insert(d); }
    return at - off;
  }
  bool OnMutableAccess(const Eigen::Vector4d& at) override
  {
    const Eigen::Vector4d p = Near(at);
    I3 u; for (int k = 0; k < 3; k++) u.push_back(Unit(p(k)));
    if (p(3) != 1.0) u[0] = -88888888;
    g_hooks.push_back(u);
    I3 c; for (int k = 0; k < 3; k++) c.push_back(static_cast<long long>(std::floor(p(k) * U / cs[k])));
    if (deny.count(c) || left == 0) return false;
    if (left > 0) left--;
    return true;
  }
  bool OnMutableRawAccess() override { g_raws++; return raw; }
};

static Eigen::Isometry3d Pose(const std::vector<int>& Q, const I3& t)
{
  Eigen::Isometry3d o = Eigen::Isometry3d::Identity();
  Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
  for (int k = 0; k < 3; k++) m(k, Q[2 * k]) = Q[2 * k + 1];
  o.linear() = m; o.translation() = Eigen::Vector3d(t[0] / U, t[1] / U, t[2] / U);
  return o;
}
static Raw JP(const std::vector<int>& Q)
{
  std::string s = "[";
  for (int k = 0; k < 3; k++) { if (k) s += ","; s += "[" + std::to_string(Q[2 * k]) + "," + std::to_string(Q[2 * k + 1]) + "]"; }
  return Raw{s + "]"};
}
static I3 T3(Tokens& t) { I3 v; for (int k = 0; k < 3; k++) v.push_back(t.Int()); return v; }
static std::vector<int> P6(Tokens& t) { std::vector<int> v; for (int k = 0; k < 6; k++) v.push_back(static_cast<int>(t.Int())); return v; }
static std::vector<I3> LI3(Tokens& t) { const auto n = t.Int(); std::vector<I3> v; for (int i = 0; i < n; i++) v.push_back(T3(t)); return v; }
static uint64_t S(const T& v, std::vector<uint8_t>& b) { return ser::SerializeMemcpyable<long long>(v, b); }
static ser::Deserialized<T> Dz(const std::vector<uint8_t>& b, const uint64_t o)
{ const auto d = ser::DeserializeMemcpyable<long long>(b, o); return ser::MakeDeserialized<T>(T(d.Value()), d.BytesRead()); }
static const char* Fs(vg::DSHVGFoundStatus s)
{
  return s == vg::DSHVGFoundStatus::NOT_FOUND ? "none" : s == vg::DSHVGFoundStatus::FOUND_IN_CHUNK ? "chunk" : s == vg::DSHVGFoundStatus::FOUND_IN_CELL ? "cell"
       : s == vg::DSHVGFoundStatus::MUTABLE_ACCESS_PROHIBITED ? "deny" : "?";
}
static const char* Ss(vg::DSHVGSetStatus s)
{ return s == vg::DSHVGSetStatus::SET_CHUNK ? "chunk" : s == vg::DSHVGSetStatus::SET_CELL ? "cell" : s == vg::DSHVGSetStatus::MUTABLE_ACCESS_PROHIBITED ? "deny" : "?"; }
template<typename Q> std::string FoundSt(const Q& q)
{
  const std::string s = Fs(q.FoundStatus());
  const bool has = s == "chunk" || s == "cell";
  return has == q.HasValue() && has == static_cast<bool>(q) ? s : "muddled";
}

struct Slots
{
  const bool policy;
  std::unique_ptr<Base> g[2];
  explicit Slots(bool p) : policy(p) { for (auto& x : g) x = Make(); }
  std::unique_ptr<Base> Make() const { if (policy) return std::unique_ptr<Base>(new P()); return std::unique_ptr<Base>(new F()); }
  Raw View()
  {
    std::string s = "[";
    for (int q = 0; q < 2; q++)
    {
      const Base& x = *g[q];
      if (q) s += ",";
      if (!x.IsInitialized()) { s += Obj("init", false).s; continue; }
      const auto n = x.GetChunkNumCells(); const Eigen::Vector3d sz = x.GetChunkSizes();
      std::map<I3, Raw> chunks; bool twice = false;
      for (const auto& kv : x.GetImmutableInternalChunks())
      {
        const Eigen::Vector4d b = Near(kv.first.Base()); const auto& ch = kv.second;
        I3 key; bool exact = b(3) == 1.0;
        for (int k = 0; k < 3; k++) { const double r = b(k) / sz(k); key.push_back(static_cast<long long>(std::floor(r))); exact = exact && r == std::floor(r); }
        const auto fs = ch.FillStatus();
        const std::string f = fs == vg::DSHVGFillStatus::CHUNK_FILLED ? "chunk" : fs == vg::DSHVGFillStatus::CELL_FILLED ? "cell" : "not";
        std::string m = "[", cc = "[";
        auto pos = [&](const Eigen::Vector4d& at) { const Eigen::Vector4d p = Near(at); if (p(3) != 1.0) exact = false; return I3{Unit(2 * p(0)), Unit(2 * p(1)), Unit(2 * p(2))}; };
        for (int64_t a = 0; a < n(0); a++) for (int64_t e = 0; e < n(1); e++) for (int64_t w = 0; w < n(2); w++)
        {
          const vg::GridIndex i(a, e, w);
          const bool first = a == 0 && e == 0 && w == 0;
          if (f == "cell" || (f == "chunk" && first))
          {
            if (m.size() > 1) m += ",";
            const auto r = ch.GetIndexImmutable(i);
            if (FoundSt(r) != f) exact = false;
            m += Obj("i", I3{a, e, w}, "v", r.Value()).s;
          }
          else if (f == "chunk" && Try([&] { ch.GetIndexImmutable(i); }) != "err") exact = false;
          if (a * n(1) * n(2) + e * n(2) + w < 6) { if (cc.size() > 1) cc += ","; cc += Obj("i", I3{a, e, w}, "p", pos(ch.GetCellLocationInGridFrame(i))).s; }
        }
        if (Try([&] { ch.GetIndexImmutable(vg::GridIndex(n(0), 0, 0)); }) != "err" || Try([&] { ch.GetIndexImmutable(vg::GridIndex(0, -1, 0)); }) != "err") exact = false;
        if (chunks.count(key)) twice = true;
        const auto mid = pos(ch.GetChunkCenterInGridFrame());
        chunks[key] = Obj("k", key, "f", f, "m", Raw{m + "]"}, "c", Raw{cc + "]"}, "mid", mid, "exact", exact);
      }
      std::vector<Raw> list; for (auto& kv : chunks) list.push_back(kv.second);
      if (twice && !list.empty()) list.push_back(list[0]);
      s += Obj("init", true, "def", x.GetDefaultValue(), "left", policy ? static_cast<const P&>(x).left : -1LL, "ch", list).s;
    }
    return Raw{s + "]"};
  }
  // The next value written is a reference to one the grid itself holds: that at a location, else the default.
  static Eigen::Vector3d Far(const Base& G, const I3& at)
  { return Eigen::Vector3d(at[0] / U, at[1] / U, at[2] / U) + (G.IsInitialized() ? Eigen::Vector3d(G.GetOriginTransform().linear() * g_far) : g_far); }
  bool own = false; I3 own_at{0, 0, 0};
  const T& Pick(const Base& G, const T& given)
  {
    if (!own || !G.IsInitialized()) return given;
    own = false;
    const auto q = G.GetLocationImmutable3d(Far(G, own_at));
    return q.HasValue() ? q.Value() : G.GetDefaultValue();
  }
  void Run(Tokens& t, Case& c)
  {
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "own") { own = true; own_at = T3(t); continue; }
      if (op == "edge") { Edge(t, c); continue; }
      const int s = static_cast<int>(t.Int());
      g_hooks.clear(); g_raws = 0;
      Base& G = *g[s];
      auto out = [&](auto&&... r) { const auto hooks = g_hooks; const auto raws = g_raws; c.Ev("op", op, "s", s, r..., "hooks", hooks, "raws", raws, "g", View()); };
      auto note = [&](const I3& at) {   // without a policy the hook cannot be seen
        if (policy || !G.IsInitialized()) return;
        const Eigen::Vector3d w = Far(G, at); const Eigen::Vector4d p = Near(G.GetInverseOriginTransform() * Eigen::Vector4d(w(0), w(1), w(2), 1.0));
        g_hooks.push_back({Unit(p(0)), Unit(p(1)), Unit(p(2))}); };
      if (op == "new")
      {
        const I3 n = T3(t), cs = T3(t); const auto Q = P6(t); const I3 tr = T3(t); const T def = static_cast<T>(t.Int());
        auto deny = LI3(t); long long left = t.Int(); bool raw = t.Int() != 0; const int how = static_cast<int>(t.Int()); const size_t exp = static_cast<size_t>(t.Int());
        if (!policy) { deny.clear(); left = -1; raw = true; }
        const std::string st = Try([&] {
          const vg::GridSizes sz = (n[0] > 0 && n[1] > 0 && n[2] > 0) ? vg::GridSizes(cs[0] / U, cs[1] / U, cs[2] / U, static_cast<int64_t>(n[0]), static_cast<int64_t>(n[1]), static_cast<int64_t>(n[2])) : vg::GridSizes();
          if (policy)
          {
            std::unique_ptr<P> q(how == 0 ? new P(Pose(Q, tr), sz, def, exp) : new P(sz, def, exp));
            q->deny.insert(deny.begin(), deny.end()); q->left = left; q->raw = raw; q->cs = cs;
            g[s] = std::move(q);
          }
          else g[s].reset(how == 0 ? new F(Pose(Q, tr), sz, def, exp) : new F(sz, def, exp));
        });
        out("how", st, "n", n, "cs", cs, "P", JP(Q), "t", tr, "def", def, "deny", deny, "left", left, "raw", raw);
      }
      else if (op == "get" || op == "set" || op == "mut")
      {
        const std::string form = t.Str(); const I3 at = T3(t); const T v(op == "get" ? 0LL : static_cast<long long>(t.Int()));
        const bool whole = op == "set" && t.Int() != 0, rv = op == "set" && t.Int() != 0;
        const Eigen::Vector3d far = Far(G, at); const double x = far(0), y = far(1), z = far(2);
        const Eigen::Vector3d p3(x, y, z); const Eigen::Vector4d p4(x, y, z, 1.0);
        std::string st; long long val = 0;
        if (op == "get")
        {
          const auto how = Try([&] {
            const Base& C = G;
            const auto q = form == "x" ? C.GetLocationImmutable(x, y, z) : form == "3" ? C.GetLocationImmutable3d(p3) : C.GetLocationImmutable4d(p4);
            st = FoundSt(q); if (q.HasValue()) val = q.Value(); });
          out("at", at, "st", how == "ok" ? st : how, "v", val);
        }
        else if (op == "set")
        {
          const auto ty = whole ? vg::DSHVGSetType::SET_CHUNK : vg::DSHVGSetType::SET_CELL; const T parsed = v; const T& w = rv ? parsed : Pick(G, parsed); const long long was = w; own = false;
          const auto how = Try([&] {
            vg::DSHVGSetStatus r;
            if (form == "x") r = rv ? G.SetLocation(x, y, z, ty, T(v)) : G.SetLocation(x, y, z, ty, w);
            else if (form == "3") r = rv ? G.SetLocation3d(p3, ty, T(v)) : G.SetLocation3d(p3, ty, w);
            else r = rv ? G.SetLocation4d(p4, ty, T(v)) : G.SetLocation4d(p4, ty, w);
            st = Ss(r); });
          note(at);
          out("at", at, "st", how == "ok" ? st : how, "v", was, "whole", whole);
        }
        else
        {
          const auto how = Try([&] {
            auto q = form == "x" ? G.GetLocationMutable(x, y, z) : form == "3" ? G.GetLocationMutable3d(p3) : G.GetLocationMutable4d(p4);
            st = FoundSt(q); if (q.HasValue()) { val = q.Value(); q.Value() = v; } });
          note(at);
          out("at", at, "st", how == "ok" ? st : how, "v", v, "old", val);
        }
      }
      else if (op == "rclr") { const auto st = Try([&] { G.GetMutableInternalChunks().clear(); }); out("st", st); }
      else if (op == "rput" || op == "rset")
      {
        const I3 k = T3(t), i = T3(t); const T v = static_cast<T>(t.Int()); const bool whole = op == "rset" && t.Int() != 0, rv = op == "rset" && t.Int() != 0; const T& w = rv ? v : Pick(G, v); const long long was = w; own = false;
        std::string st;
        const auto how = Try([&] {
          auto& m = G.GetMutableInternalChunks();
          const Eigen::Vector3d sz = G.GetChunkSizes();
          auto f = m.find(vg::ChunkRegion(k[0] * sz(0) + g_far(0), k[1] * sz(1) + g_far(1), k[2] * sz(2) + g_far(2)));
          if (f == m.end()) { st = "none"; return; }
          if (op == "rput")
          {
            auto q = f->second.GetIndexMutable(vg::GridIndex(i[0], i[1], i[2]));
            st = FoundSt(q); q.Value() = w;
          }
          else
          {
            const Eigen::Vector4d p(i[0] / U + g_far(0), i[1] / U + g_far(1), i[2] / U + g_far(2), 1.0);
            if (whole) st = Ss(rv ? f->second.SetChunkValue(T(v)) : f->second.SetChunkValue(w));
            else st = Ss(rv ? f->second.SetCellLocation4d(p, T(v)) : f->second.SetCellLocation4d(p, w));
          }
        });
        if (op == "rput") out("k", k, "i", i, "v", was, "st", how == "ok" ? st : how);
        else out("k", k, "at", i, "v", was, "whole", whole, "st", how == "ok" ? st : how);
      }
      else if (op == "sdef") { const T p = static_cast<T>(t.Int()); const T& v = Pick(G, p); const long long was = v; G.SetDefaultValue(v); out("v", was); }
      else if (op == "pose") { const auto Q = P6(t); const I3 tr = T3(t); G.UpdateOriginTransform(Pose(Q, tr)); out("P", JP(Q), "t", tr); }
      else if (op == "deny")
      {
        auto deny = LI3(t); long long left = t.Int(); bool raw = t.Int() != 0;
        if (policy) { auto& p = static_cast<P&>(G); p.deny = std::set<I3>(deny.begin(), deny.end()); p.left = left; p.raw = raw; } else { deny.clear(); left = -1; raw = true; }
        out("deny", deny, "left", left, "raw", raw);
      }
      else if (op == "copy")
      {
        const int to = static_cast<int>(t.Int()), how = static_cast<int>(t.Int());
        if (how == 0) g[to] = G.Clone();
        else if (policy) { auto& p = static_cast<P&>(G); if (how == 1) g[to] = std::unique_ptr<Base>(new P(p)); else if (how == 2) static_cast<P&>(*g[to]) = p; else { P tmp(p); static_cast<P&>(*g[to]) = std::move(tmp); } }
        else { auto& p = static_cast<F&>(G); if (how == 1) g[to] = std::unique_ptr<Base>(new F(p)); else if (how == 2) static_cast<F&>(*g[to]) = p; else { F tmp(p); static_cast<F&>(*g[to]) = std::move(tmp); } }
        out("t", to, "how", std::string("ok"));
      }
      else if (op == "save")
      {
        const int to = static_cast<int>(t.Int()), off = static_cast<int>(t.Int());
        std::vector<uint8_t> buf(static_cast<size_t>(off), 0xAB); std::string how; uint64_t r = 0;
        const bool stat = !policy && (off % 2);
        const uint64_t w = stat ? F::Serialize(static_cast<F&>(G), buf, S) : G.SerializeSelf(buf, S);
        buf.push_back(0xCD);
        if (stat) { auto d = F::Deserialize(buf, static_cast<uint64_t>(off), Dz); r = d.BytesRead(); how = Try([&] { g[to] = std::unique_ptr<Base>(new F(d.Value())); }); }
        else { auto q = to == s ? Make() : std::move(g[to]); how = Try([&] { r = q->DeserializeSelf(buf, static_cast<uint64_t>(off), Dz); }); g[to] = std::move(q); }
        if (how == "ok" && (r != w || buf.size() != static_cast<size_t>(off) + w + 1)) how = "bytes";
        out("t", to, "how", how);
      }
      else if (op == "cut")
      {
        const int by = static_cast<int>(t.Int());
        std::vector<uint8_t> buf; G.SerializeSelf(buf, S);
        buf.resize(buf.size() - std::min<size_t>(buf.size(), static_cast<size_t>(by)));
        auto q = Make(); const auto how = Try([&] { q->DeserializeSelf(buf, 0, Dz); });
        out("how", how);
      }
      else if (op == "spoil")
      {
        // every byte changed in turn: refused, or a grid that can be read
        const auto flip = static_cast<uint8_t>(t.Int()); std::vector<uint8_t> buf; G.SerializeSelf(buf, S); std::vector<long long> bad; long long refused = 0;
        for (size_t k = 0; k < buf.size(); k++)
        {
          buf[k] ^= flip; auto q = Make(); const auto how = Try([&] { q->DeserializeSelf(buf, 0, Dz); }); buf[k] ^= flip;
          const Base& x = *q; bool fine = how == "err";
          if (how == "ok")
          {
            fine = x.IsInitialized() == x.GetChunkGridSizes().Valid() && (x.IsInitialized() || x.GetImmutableInternalChunks().empty());
            for (const auto& kv : x.GetImmutableInternalChunks())
            {
              const auto fs = kv.second.FillStatus(); const std::string f = fs == vg::DSHVGFillStatus::CHUNK_FILLED ? "chunk" : fs == vg::DSHVGFillStatus::CELL_FILLED ? "cell" : "not";
              std::string at = "not"; if (f != "not") Try([&] { at = FoundSt(kv.second.GetIndexImmutable(vg::GridIndex(0, 0, 0))); });
              const auto n = x.GetChunkNumCells(); if (n(0) > 0 && n(1) > 0 && n(2) > 0) Try([&] { (void)kv.second.GetIndexImmutable(vg::GridIndex(n(0) - 1, n(1) - 1, n(2) - 1)); });
              fine = fine && at == f;
            }
          }
          if (how == "err") refused++;
          if (!fine) bad.push_back(static_cast<long long>(k));
        }
        out("bad", bad, "some", refused > 0);
      }
      else { fprintf(stderr, "op %s\n", op.c_str()); _exit(2); }
    }
  }
  // write and read at one location of a fresh grid with any cell size
  static void Edge(Tokens& t, Case& c)
  {
    const double cs = t.Dbl(); const int64_t n = t.Int(); const double x = t.Dbl(), y = t.Dbl(), z = t.Dbl(); const bool whole_first = t.Int() != 0;
    std::string first, set, st, mut, others = "default"; long long v = 0, chunks = 0;
    const auto how = Try([&] {
      F g(vg::GridSizes(cs, n, n, n), 3, 4);
      first = FoundSt(g.GetLocationImmutable(x, y, z));
      if (whole_first) g.SetLocation(x, y, z, vg::DSHVGSetType::SET_CHUNK, 3);
      set = Ss(g.SetLocation(x, y, z, vg::DSHVGSetType::SET_CELL, 7));
      const auto q = g.GetLocationImmutable3d(Eigen::Vector3d(x, y, z)); st = FoundSt(q); v = q.HasValue() ? static_cast<long long>(q.Value()) : 0;
      auto m = g.GetLocationMutable(x, y, z); mut = FoundSt(m);
      chunks = static_cast<long long>(g.GetImmutableInternalChunks().size());
      int seven = 0, rest = 0;
      for (const auto& kv : g.GetImmutableInternalChunks()) for (int64_t a = 0; a < n; a++) for (int64_t b = 0; b < n; b++) for (int64_t d = 0; d < n; d++)
      { const auto w = kv.second.GetIndexImmutable(vg::GridIndex(a, b, d)).Value(); if (w == 7) seven++; else if (w == 3) rest++; }
      if (seven != 1 || rest != n * n * n - 1) others = "changed";
    });
    c.Ev("op", "edge", "how", how, "first", first, "set", set, "st", st, "v", v, "mut", mut, "chunks", chunks, "others", others, "s", 0,
         "x", std::to_string(x), "y", std::to_string(y), "z", std::to_string(z), "cs", std::to_string(cs), "n", n);
  }
};
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) { const std::string kind = t.Str(); c.Head("kind", kind); for (int k = 0; k < 3; k++) g_far(k) = t.Dbl(); Slots s(kind == "p"); s.Run(t, c); });
}
