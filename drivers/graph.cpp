#include <memory>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/serialization.hpp>
#include "drv.hpp"
#include "bignew.hpp"
using namespace common_robotics_utilities;
using V = int64_t;
using G = simple_graph::Graph<V>;
using O1 = simple_graph::NonOwningGraphOverlay<V, G>;
using O2 = simple_graph::NonOwningGraphOverlay<V, O1>;
using parallelism::DegreeOfParallelism;
static drv::Raw Ed(const simple_graph::GraphEdge& e)
{ return drv::Raw{"[" + drv::J(e.GetFromIndex()) + "," + drv::J(e.GetToIndex()) + "," + drv::DU(e.GetWeight()).s + "," + drv::J(e.GetScratchpad()) + "]"}; }
template<typename X> static drv::Raw Dump(const X& g)
{
  std::vector<V> v; std::vector<drv::Raw> o, in;
  for (int64_t k = 0; k < g.Size(); k++)
  {
    const auto& n = g.GetNodeImmutable(k);
    v.push_back(n.GetValueImmutable());
    std::vector<drv::Raw> a, b;
    for (const auto& e : n.GetOutEdgesImmutable()) a.push_back(Ed(e));
    for (const auto& e : n.GetInEdgesImmutable()) b.push_back(Ed(e));
    o.push_back(drv::Raw{drv::J(a)}); in.push_back(drv::Raw{drv::J(b)});
  }
  return drv::Obj("v", v, "o", o, "i", in);
}
struct World
{
  std::unique_ptr<G> g[2]; std::unique_ptr<O1> o1; std::unique_ptr<O2> o2;
  template<typename F> auto On(int s, const F& f) { switch (s) { case 0: return f(*g[0]); case 1: return f(*g[1]); case 2: return f(*o1); default: return f(*o2); } }
  std::vector<drv::Raw> St()
  {
    std::vector<drv::Raw> r;
    const auto add = [&](int s, const auto& x) { r.push_back(drv::Obj("s", s, "n", x.Size(), "lk", x.CheckGraphLinkage(), "G", Dump(x))); };
    if (g[0]) add(0, *g[0]);
    if (g[1]) add(1, *g[1]);
    if (o1) add(2, *o1);
    if (o2) add(3, *o2);
    return r;
  }
};
static void DoCase(drv::Tokens& t, drv::Case& c)
{
  World w; w.g[0].reset(new G());
  const serialization::Serializer<V> ser = serialization::SerializeMemcpyable<V>;
  const serialization::Deserializer<V> des = serialization::DeserializeMemcpyable<V>;
  while (t.Has())
  {
    const std::string op = t.Str(); const int s = static_cast<int>(t.Int());
    if (op == "N") { const V x = t.Int(); int64_t r = -1; const auto how = drv::Try([&] { r = w.On(s, [&](auto& g) { using T = typename std::decay<decltype(g)>::type; return (x % 2) ? g.AddNode(x) : g.AddNode(typename T::NodeType(x)); }); }); c.Ev("op", op, "s", s, "x", x, "r", r, "how", how, "st", w.St()); }
    else if (op == "M")
    {
      // a node object that already carries its edges, whose other ends are added by hand
      const V x = t.Int(); int64_t a = t.Int(), b = t.Int(); const int64_t wt = t.Int(); int64_t r = -1;
      const auto how = drv::Try([&] { w.On(s, [&](auto& g)
      {
        using T = typename std::decay<decltype(g)>::type; using N = typename T::NodeType; using E = typename N::EdgeType;
        const int64_t n = g.Size(); a = n ? a % n : -1; b = n ? b % n : -1;
        if (n == 0) { r = g.AddNode(N(x)); return 0; }
        const E out(n, a, drv::Fine(static_cast<double>(wt))), in(b, n, drv::Fine(static_cast<double>(wt + 1)));
        const N node(x, {in}, {out});
        r = g.AddNode(node);
        g.GetNodeMutable(a).AddInEdge(out); g.GetNodeMutable(b).AddOutEdge(in);
        return 0;
      }); });
      c.Ev("op", op, "s", s, "x", x, "a", a, "b", b, "w", wt, "r", r, "how", how, "st", w.St());
    }
    else if (op == "E" || op == "B")
    {
      const int64_t a = t.Int(), b = t.Int(), wt = t.Int();
      const auto how = drv::Try([&] { w.On(s, [&](auto& g) { if (op == "E") g.AddEdgeBetweenNodes(a, b, drv::Fine(static_cast<double>(wt))); else g.AddEdgesBetweenNodes(a, b, drv::Fine(static_cast<double>(wt))); return 0; }); });
      c.Ev("op", op, "s", s, "a", a, "b", b, "w", wt, "how", how, "st", w.St());
    }
    else if (op == "V")
    {
      const int64_t k = t.Int(), x = t.Int();
      const auto how = drv::Try([&] { w.On(s, [&](auto& g) { g.GetNodeMutable(k).GetValueMutable() = x; return 0; }); });
      c.Ev("op", op, "s", s, "k", k, "x", x, "how", how, "st", w.St());
    }
    else if (op == "W")
    {
      const int64_t a = t.Int(), k = t.Int(), wt = t.Int(), sc = t.Int();
      std::vector<int64_t> e = {0, 0, 0, 0};
      w.On(s, [&](auto& g)
      {
        if (!g.IndexInRange(a)) { e = {-9, -9, 0, 0}; return 0; }
        auto& outs = g.GetNodeMutable(a).GetOutEdgesMutable();
        if (outs.empty()) { e = {-9, -9, 0, 0}; return 0; }
        auto& oe = outs[static_cast<size_t>(k) % outs.size()];
        const auto old = oe;
        e = {old.GetFromIndex(), old.GetToIndex(), static_cast<int64_t>(old.GetWeight() / drv::Unit()), static_cast<int64_t>(old.GetScratchpad())};
        oe.SetWeight(drv::Fine(static_cast<double>(wt))); oe.SetScratchpad(static_cast<uint64_t>(sc));
        for (auto& ie : g.GetNodeMutable(old.GetToIndex()).GetInEdgesMutable())
          if (ie == old) { ie.SetWeight(drv::Fine(static_cast<double>(wt))); ie.SetScratchpad(static_cast<uint64_t>(sc)); break; }
        return 0;
      });
      c.Ev("op", op, "s", s, "e", e, "w", wt, "sc", sc, "st", w.St());
    }
    else if (op == "P")
    {
      const int d = static_cast<int>(t.Int()), deg = static_cast<int>(t.Int()); const auto S = t.List<int64_t>();
      const std::unordered_set<int64_t> set(S.begin(), S.end());
      const auto how = drv::Try([&]
      {
        if (s <= 1) { G r = w.g[s]->MakePrunedCopy(set, DegreeOfParallelism(deg)); w.g[d].reset(new G(r)); }
        else if (s == 2) { G r = simple_graph::PruneGraph<O1, G>(*w.o1, set, DegreeOfParallelism(deg)); w.g[d].reset(new G(r)); }
        else { G r = simple_graph::PruneGraph<O2, G>(*w.o2, set, DegreeOfParallelism(deg)); w.g[d].reset(new G(r)); }
      });
      c.Ev("op", op, "s", s, "d", d, "deg", deg, "S", S, "how", how, "st", w.St());
    }
    else if (op == "C")
    {
      const int d = static_cast<int>(t.Int());
      const auto how = drv::Try([&] { if (s <= 1) { if (w.g[d]) *w.g[d] = *w.g[s]; else w.g[d].reset(new G(*w.g[s])); } else if (s == 2) { O1 x(*w.o1); *w.o1 = x; } else { O2 x(*w.o2); *w.o2 = x; } });
      c.Ev("op", op, "s", s, "d", d, "how", how, "st", w.St());
    }
    else if (op == "S")
    {
      const int d = static_cast<int>(t.Int()); const size_t off = static_cast<size_t>(t.Int());
      uint64_t wrote = 0, read = 1;
      const auto how = drv::Try([&]
      {
        std::vector<uint8_t> buf(off, 0xa5);
        wrote = G::Serialize(*w.g[s], buf, ser);
        if (wrote + off != buf.size()) throw std::runtime_error("size");
        buf.resize(buf.size() + 3, 0x5a);
        const auto r = G::Deserialize(buf, off, des);
        read = r.BytesRead(); w.g[d].reset(new G(r.Value()));
      });
      c.Ev("op", op, "s", s, "d", d, "how", how, "wrote", wrote, "read", read, "st", w.St());
    }
    else if (op == "O")
    {
      const int d = static_cast<int>(t.Int());
      const auto how = drv::Try([&] { if (d == 2) w.o1.reset(new O1(*w.g[s])); else w.o2.reset(new O2(*w.o1)); });
      c.Ev("op", op, "s", s, "d", d, "how", how, "st", w.St());
    }
    else if (op == "G")
    {
      const int64_t k = t.Int(); V x = -1; bool inr = false;
      const auto how = drv::Try([&] { w.On(s, [&](auto& g) { inr = g.IndexInRange(k); const auto& cg = g; x = cg.GetNodeImmutable(k).GetValueImmutable(); return 0; }); });
      c.Ev("op", op, "s", s, "k", k, "x", x, "inr", inr, "how", how, "st", w.St());
    }
    else if (op == "T")
    {
      // change one field of one edge end in a copy, then ask the linkage check,
      // the checking constructor and the loader
      const int64_t a = t.Int(), k = t.Int(), val = t.Int(); const int what = static_cast<int>(t.Int());
      G x(*w.g[s]);
      if (x.Size() > 0)
      {
        auto& nd = x.GetNodesMutable().at(static_cast<size_t>(a) % static_cast<size_t>(x.Size()));
        auto& es = (what & 1) ? nd.GetInEdgesMutable() : nd.GetOutEdgesMutable();
        if (!es.empty())
        {
          auto& e = es[static_cast<size_t>(k) % es.size()];
          if ((what >> 1) == 0) e.SetFromIndex(val); else if ((what >> 1) == 1) e.SetToIndex(val); else es.erase(es.begin() + (k % static_cast<int64_t>(es.size())));
        }
      }
      std::vector<uint8_t> buf; x.SerializeSelf(buf, ser);
      const bool chk = x.CheckGraphLinkage();
      const bool ctor = drv::Try([&] { const G y(x.GetNodesImmutable()); if (y.Size() != x.Size()) throw std::runtime_error("x"); }) == "ok";
      const bool deser = drv::Try([&] { const auto y = G::Deserialize(buf, 0, des); if (y.Value().Size() != x.Size()) throw std::runtime_error("x"); }) == "ok";
      c.Ev("op", op, "s", s, "G", Dump(x), "chk", chk, "ctor", ctor, "deser", deser, "st", w.St());
    }
    else if (op == "X")
    {
      // the saved form cut short at every place, and with every byte changed in turn
      const auto flip = static_cast<uint8_t>(t.Int());
      std::vector<uint8_t> buf; w.g[s]->SerializeSelf(buf, ser);
      std::vector<long long> kept, alien, other; long long refused = 0;
      for (size_t k = 0; k < buf.size(); k++)
      {
        const auto st = drv::Try([&] { G::Deserialize(std::vector<uint8_t>(buf.begin(), buf.begin() + static_cast<long>(k)), 0, des); });
        if (st != "err") kept.push_back(static_cast<long long>(k));
      }
      for (size_t k = 0; k < buf.size(); k++)
      {
        auto b = buf; b[k] = static_cast<uint8_t>(b[k] ^ flip);
        bool same = true;
        const auto st = drv::Try([&] {
          const auto y = G::Deserialize(b, 0, des);
          std::vector<uint8_t> again; y.Value().SerializeSelf(again, ser);
          same = y.Value().CheckGraphLinkage() && y.BytesRead() == again.size() && again.size() <= b.size() && std::equal(again.begin(), again.end(), b.begin());
        });
        if (st == "unk") alien.push_back(static_cast<long long>(k));
        if (st == "err") refused++;
        if (!same) other.push_back(static_cast<long long>(k));
      }
      c.Ev("op", op, "s", s, "kept", kept, "alien", alien, "other", other, "some", refused > 0, "st", w.St());
    }
    else exit(2);
  }
}
int main(int argc, char** argv) { return drv::Main(argc, argv, DoCase, 40); }
