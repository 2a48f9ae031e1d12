// Planner trees and RRT planners (C11, C12, C13).
#include "drv.hpp"
#include <thread>
#include <list>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
namespace ser = common_robotics_utilities::serialization;
namespace rrt = common_robotics_utilities::simple_rrt_planner;
using drv::Case; using drv::Tokens; using drv::Raw; using drv::J;
// States and samples are different types wherever the library allows it.
struct St { int v = 0; };
struct Sm { int v = 0; };
using Tree = rrt::SimpleRRTPlannerTree<St>;
using Node = rrt::SimpleRRTPlannerState<St>;
using Nodes = rrt::SimpleRRTPlannerStateVector<St>;
static uint64_t SSer(const St& s, std::vector<uint8_t>& b) { return ser::SerializeMemcpyable<int>(s.v, b); }
static ser::Deserialized<St> SDes(const std::vector<uint8_t>& b, uint64_t o)
{ const auto d = ser::DeserializeMemcpyable<int>(b, o); return ser::MakeDeserialized(St{d.Value()}, d.BytesRead()); }
static Raw JN(const Node& n) { return Raw{"[" + J(n.GetValueImmutable().v) + "," + J(n.GetParentIndex()) + "," + J(n.GetChildIndices()) + "]"}; }
static Raw JT(const Tree& t)
{ std::string o; for (const auto& n : t.GetNodesImmutable()) { if (!o.empty()) o += ","; o += JN(n).s; } return Raw{"[" + o + "]"}; }
static Raw JNs(const Nodes& t)
{ std::string o; for (const auto& n : t) { if (!o.empty()) o += ","; o += JN(n).s; } return Raw{"[" + o + "]"}; }
template<typename C> static Raw JP(const C& p) { std::string o; for (const St& s : p) { if (!o.empty()) o += ","; o += J(s.v); } return Raw{"[" + o + "]"}; }
static Nodes ReadNodes(Tokens& t)
{
  Nodes ns; const int n = t.Int();
  for (int i = 0; i < n; i++) { const int v = t.Int(); const long p = t.Int(); const auto ch = t.List<int64_t>(); ns.push_back(Node(St{v}, p, ch)); }
  return ns;
}
static void TreeCase(Tokens& t, Case& c)
{
  std::vector<Tree> S{Tree(), Tree(4), Tree()};
  const auto all = [&] { return Raw{"[" + JT(S[0]).s + "," + JT(S[1]).s + "," + JT(S[2]).s + "]"}; };
  while (t.Has())
  {
    const std::string op = t.Str();
    if (op == "add") { const int s = t.Int(), v = t.Int(); long r = -1; const auto h = drv::Try([&] { r = S[s].AddNode(St{v}); }); c.Ev("op", op, "s", s, "v", v, "r", r, "how", h, "S", all()); }
    else if (op == "con") { const int s = t.Int(), v = t.Int(), p = t.Int(); long r = -1; const auto h = drv::Try([&] { r = S[s].AddNodeAndConnect(St{v}, p); }); c.Ev("op", op, "s", s, "v", v, "p", p, "r", r, "how", h, "S", all()); }
    else if (op == "val") { const int s = t.Int(), i = t.Int(), v = t.Int(); const auto h = drv::Try([&] { S[s].GetNodeMutable(i).GetValueMutable().v = v; }); c.Ev("op", op, "s", s, "i", i, "v", v, "how", h, "S", all()); }
    else if (op == "clr") { const int s = t.Int(); S[s].Clear(); c.Ev("op", op, "s", s, "how", S[s].Empty() && S[s].Size() == 0 ? "ok" : "bad", "S", all()); }
    else if (op == "cpy")
    {
      const int s = t.Int(), d = t.Int(), k = t.Int();
      if (k == 0) S[d] = S[s]; else if (k == 1) { const Tree x(S[s]); S[d] = x; } else { Tree x(S[s]); S[d] = std::move(x); }
      c.Ev("op", op, "s", s, "t", d, "how", "ok", "same", S[s].Size() == S[d].Size(), "S", all());
    }
    else if (op == "ser")
    {
      const int s = t.Int(), d = t.Int(), off = t.Int(); bool same = false;
      const auto h = drv::Try([&] {
        std::vector<uint8_t> b(off, 7); const uint64_t w = Tree::Serialize(S[s], b, SSer);
        same = w == b.size() - off; b.push_back(9);
        const auto r = Tree::Deserialize(b, off, SDes); same = same && r.BytesRead() == w; S[d] = r.Value(); });
      c.Ev("op", op, "s", s, "t", d, "how", h, "same", same, "S", all());
    }
    else if (op == "dmg")
    {
      const int s = t.Int(), cut = t.Int();
      const auto h = drv::Try([&] { std::vector<uint8_t> b; Tree::Serialize(S[s], b, SSer); b.resize(b.size() - std::min<size_t>(b.size(), cut)); Tree::Deserialize(b, 0, SDes); });
      c.Ev("op", op, "s", s, "how", h, "S", all());
    }
    else if (op == "set" || op == "new" || op == "dsr")
    {
      const int s = t.Int(); const Nodes ns = ReadNodes(t); bool ok = true;
      const auto h = drv::Try([&] {
        if (op == "set") ok = S[s].SetNodes(ns);
        else if (op == "new") S[s] = Tree(ns);
        else
        {
          std::vector<uint8_t> b;
          ser::SerializeVectorLike<Node>(ns, b, [](const Node& n, std::vector<uint8_t>& bb) { return Node::Serialize(n, bb, SSer); });
          S[s] = Tree::Deserialize(b, 0, SDes).Value();
        } });
      c.Ev("op", op, "s", s, "N", JNs(ns), "how", h == "ok" && !ok ? "err" : h, "S", all());
    }
    else if (op == "lnk") { const Nodes ns = ReadNodes(t); c.Ev("op", op, "N", JNs(ns), "r", Tree::CheckNodeLinkage(ns) ? 1 : 0, "S", all()); }
    else if (op == "chk") { const int s = t.Int(); c.Ev("op", op, "r", Tree::CheckNodeLinkage(S[s].GetNodesImmutable()) ? 1 : 0, "S", all()); }
    else if (op == "path")
    {
      const int s = t.Int(), i = t.Int(); Raw p{"[]"};
      const auto h = drv::Try([&] { p = JP(rrt::ExtractSolutionPath<St>(S[s], i)); });
      c.Ev("op", op, "s", s, "i", i, "how", h, "path", p, "S", all());
    }
    else if (op == "paths")
    {
      const int s = t.Int(); auto L = t.List<int64_t>(); std::string o;
      for (auto& x : L) x = S[s].Empty() ? 0 : x % S[s].Size();
      if (S[s].Empty()) L.clear();
      const auto h = drv::Try([&] { for (const auto& p : rrt::ExtractSolutionPaths<St, Tree, std::list<St>>(S[s], L)) { if (!o.empty()) o += ","; o += JP(p).s; } });
      c.Ev("op", op, "s", s, "L", L, "how", h, "paths", Raw{"[" + o + "]"}, "S", all());
    }
    else if (op == "raw")
    {
      const std::string kind = t.Str(); const int v = t.Int(); const long p = t.Int(); const auto ch = t.List<int64_t>(); const long a = t.Int();
      Node n(St{v}, p, ch); const Raw before = JN(n);
      if (kind == "ac") n.AddChildIndex(a); else if (kind == "rc") n.RemoveChildIndex(a); else if (kind == "cc") n.ClearChildIndicies(); else n.SetParentIndex(a);
      c.Ev("op", op, "kind", kind, "a", a, "before", before, "after", JN(n), "S", all());
    }
    else _exit(2);
  }
}
static Tree ReadTree(Tokens& t)
{
  Tree T; const int n = t.Int();
  for (int i = 0; i < n; i++) { const int v = t.Int(), p = t.Int(); if (p < 0) T.AddNode(St{v}); else T.AddNodeAndConnect(St{v}, p); }
  return T;
}
struct Iter { int x; int near; int st; int ts; int sw; std::vector<std::pair<int, int>> prop; };
static std::vector<Iter> ReadIters(Tokens& t, bool bi)
{
  std::vector<Iter> I; const int n = t.Int();
  for (int i = 0; i < n; i++)
  {
    Iter it{}; it.x = t.Int(); it.near = t.Int();
    if (bi) { it.st = t.Int(); it.ts = t.Int(); it.sw = t.Int(); }
    const int k = t.Int(); for (int j = 0; j < k; j++) { const int v = t.Int(), r = t.Int(); it.prop.push_back({v, r}); }
    I.push_back(it);
  }
  return I;
}
static int Pick(int k, long n) { return k == -1 ? -1 : k == -2 ? static_cast<int>(n) : static_cast<int>(k % n); }
static rrt::ForwardPropagation<St> MakeProp(const Iter& it)
{ rrt::ForwardPropagation<St> f; for (const auto& p : it.prop) f.emplace_back(St{p.first}, p.second); return f; }
static Raw JProp(const rrt::ForwardPropagation<St>& f)
{ std::string o; for (const auto& p : f) { if (!o.empty()) o += ","; o += "[" + J(p.State().v) + "," + J(p.RelativeParentIndex()) + "]"; } return Raw{"[" + o + "]"}; }
static Raw Stat(const rrt::PlanningStatistics& s, const std::vector<const char*>& names)
{
  std::string o;
  for (const char* n : names) { if (!o.empty()) o += ","; o += s.count(n) ? drv::D(s.at(n)).s : "-1"; }
  return Raw{"[" + o + "]"};
}
template<typename P> static Raw JPaths(const P& ps) { std::string o; for (const auto& p : ps) { if (!o.empty()) o += ","; o += JP(p).s; } return Raw{"[" + o + "]"}; }

// What a callback does to the tree it is given: nothing, change the new state, or add states.
struct Edit { int k; int v; int p; };
static std::vector<Edit> ReadEdits(Tokens& t)
{ std::vector<Edit> E; const int n = t.Int(); for (int i = 0; i < n; i++) { Edit e{}; e.k = t.Int(); e.v = t.Int(); e.p = t.Int(); E.push_back(e); } return E; }
struct Editor
{
  std::vector<Edit> E; size_t n = 0;
  // returns [kind, value, node] as done on tr
  Raw Do(Tree& tr, const int64_t i, const bool change)
  {
    if (E.empty()) return Raw{"[0,0,0]"};
    const Edit e = E[n++ % E.size()]; const int64_t p = e.p % tr.Size(); int k = e.k;
    if (k == 1 && change) tr.GetNodeMutable(i).GetValueMutable().v = e.v;
    else if (k == 2) tr.AddNode(St{e.v});
    else if (k == 3) tr.AddNodeAndConnect(St{e.v}, p);
    else if (k == 4) { tr.GetNodesMutable().shrink_to_fit(); tr.AddNode(St{e.v}); tr.GetNodesMutable().shrink_to_fit(); k = 2; }
    else k = 0;
    return Raw{"[" + J(k) + "," + J(e.v) + "," + J(k == 1 ? i : p) + "]"};
  }
};
static void RrtCase(Tokens& t, Case& c)
{
  const int single = t.Int(), hasA = t.Int(), hasG = t.Int(), limit = t.Int();
  Tree T = ReadTree(t); const auto gl = t.List(); const std::set<int> goals(gl.begin(), gl.end());
  const auto I = ReadIters(t, false); size_t k = 0; Editor ed{ReadEdits(t)};
  c.Head("single", single == 1, "hasA", hasA == 1, "hasG", hasG == 1, "T0", JT(T));
  rrt::RRTStateAddedCallbackFunction<St> added; rrt::RRTGoalReachedCallbackFunction<St> goalcb;
  if (hasA) added = [&](Tree& tr, const int64_t i) { const Raw t0 = JT(tr); c.Ev("k", "added", "i", i, "T", t0, "same", &tr == &T, "ed", ed.Do(tr, i, true)); };
  if (hasG) goalcb = [&](Tree& tr, const int64_t i) { const Raw t0 = JT(tr); c.Ev("k", "goalcb", "i", i, "T", t0, "same", &tr == &T, "ed", ed.Do(tr, i, false)); };
  const rrt::SamplingFunction<Sm> sample = [&] { const Sm s{I[k].x}; c.Ev("k", "samp", "x", s.v); return s; };
  const rrt::RRTNearestNeighborFunction<St, Tree, Sm> near = [&](const Tree& tr, const Sm& s) {
    const int64_t r = Pick(I[k].near, tr.Size()); c.Ev("k", "near", "x", s.v, "T", JT(tr), "r", r); return r; };
  const rrt::RRTForwardPropagationFunction<St, Sm> prop = [&](const St& n, const Sm& s) {
    const auto f = MakeProp(I[k]); c.Ev("k", "prop", "v", n.v, "x", s.v, "r", JProp(f)); k++; return f; };
  const rrt::RRTCheckGoalReachedFunction<St> goal = [&](const St& s) { const bool r = goals.count(s.v) > 0; c.Ev("k", "goal", "v", s.v, "r", r); return r; };
  const rrt::RRTTerminationCheckFunction term = [&](const int64_t n) { const bool r = k >= I.size() || n >= limit; c.Ev("k", "term", "n", n, "r", r); return r; };
  Raw paths{"[]"}, st{"[]"}; bool timed = false;
  const std::vector<const char*> names{"total_samples", "successful_samples", "failed_samples", "total_states", "solutions"};
  const auto how = drv::Try([&] {
    if (single)
    {
      const auto r = rrt::RRTPlanSinglePath<St, Tree, Sm, std::list<St>>(T, sample, near, prop, added, goal, goalcb, term);
      paths = r.Path().empty() ? Raw{"[]"} : Raw{"[" + JP(r.Path()).s + "]"}; st = Stat(r.Statistics(), names); timed = r.Statistics().at("planning_time") >= 0;
    }
    else
    {
      const auto r = rrt::RRTPlanMultiPath<St, Tree, Sm>(T, sample, near, prop, added, goal, goalcb, term);
      paths = JPaths(r.Paths()); st = Stat(r.Statistics(), names); timed = r.Statistics().at("planning_time") >= 0;
    } });
  c.Ev("k", "end", "how", how, "T", JT(T), "paths", paths, "st", st, "timed", timed);
}
static void BiCase(Tokens& t, Case& c)
{
  const int single = t.Int(), hasA = t.Int(), hasB = t.Int(), limit = t.Int();
  Tree A = ReadTree(t), B = ReadTree(t);
  const int np = t.Int(); std::set<std::pair<int, int>> link; for (int i = 0; i < np; i++) { const int a = t.Int(), b = t.Int(); link.insert({a, b}); }
  const auto I = ReadIters(t, true); size_t k = 0; Editor ed{ReadEdits(t)}, eg{ed.E}; bool begun = false;
  using AT = rrt::BiRRTActiveTreeType; using SM = rrt::BiRRTSampleType;
  const auto a = [](AT x) { return x == AT::START_TREE ? 0 : 1; };
  c.Head("single", single == 1, "hasA", hasA == 1, "hasB", hasB == 1, "A0", JT(A), "B0", JT(B));
  rrt::BiRRTStateAddedCallbackFunction<St> added; rrt::BiRRTGoalBridgeCallbackFunction<St> bridge;
  if (hasA) added = [&](Tree& tr, const int64_t i, const AT x) { const Raw t0 = JT(tr); c.Ev("k", "added", "i", i, "act", a(x), "tree", &tr == &A ? 0 : &tr == &B ? 1 : 2, "T", t0, "ed", ed.Do(tr, i, true)); };
  if (hasB) bridge = [&](Tree& s, const int64_t i, Tree& g, const int64_t j, const AT x) {
    const Raw a0 = JT(A), b0 = JT(B);
    const Raw es = begun ? ed.Do(s, i, false) : Raw{"[0,0,0]"}, et = begun ? eg.Do(g, j, false) : Raw{"[0,0,0]"};
    c.Ev("k", "bridge", "i", i, "j", j, "act", a(x), "trees", &s == &A && &g == &B, "A", a0, "B", b0, "ed", es, "eg", et); };
  const rrt::BiRRTSelectSampleTypeFunction<St> stype = [&](const Tree& s, const Tree& g, const AT x) {
    const bool tree = I[k].st == 1; c.Ev("k", "stype", "act", a(x), "trees", &s == &A && &g == &B, "r", tree); return tree ? SM::TREE_SAMPLE : SM::STATE_SAMPLE; };
  const rrt::SamplingFunction<St> sample = [&] { const St s{I[k].x}; c.Ev("k", "samp", "x", s.v); return s; };
  const rrt::BiRRTTreeSamplingFunction<St> tsamp = [&](const Tree& tr, const AT x) {
    const int64_t r = Pick(I[k].ts, tr.Size()); c.Ev("k", "tsamp", "act", a(x), "tree", &tr == &A ? 0 : &tr == &B ? 1 : 2, "T", JT(tr), "r", r); return r; };
  const rrt::BiRRTNearestNeighborFunction<St> near = [&](const Tree& tr, const St& s, const AT x) {
    const int64_t r = Pick(I[k].near, tr.Size()); c.Ev("k", "near", "act", a(x), "tree", &tr == &A ? 0 : &tr == &B ? 1 : 2, "x", s.v, "T", JT(tr), "r", r); return r; };
  const rrt::BiRRTPropagationFunction<St> prop = [&](const St& n, const St& s, const AT x) {
    const auto f = MakeProp(I[k]); c.Ev("k", "prop", "act", a(x), "v", n.v, "x", s.v, "r", JProp(f)); return f; };
  const rrt::BiRRTStatesConnectedFunction<St> conn = [&](const St& s, const St& g, const AT x) {
    const bool r = link.count({s.v, g.v}) > 0; c.Ev("k", "conn", "u", s.v, "w", g.v, "act", a(x), "r", r); return r; };
  const rrt::BiRRTSelectActiveTreeFunction<St> sact = [&](const Tree& s, const Tree& g, const AT x) {
    const AT r = I[k].sw == 1 ? (x == AT::START_TREE ? AT::GOAL_TREE : AT::START_TREE) : x; k++;
    c.Ev("k", "sact", "act", a(x), "trees", &s == &A && &g == &B, "r", a(r)); return r; };
  const rrt::BiRRTTerminationCheckFunction term = [&](const int64_t n, const int64_t m) { begun = true; const bool r = k >= I.size() || n + m >= limit; c.Ev("k", "term", "n", n, "m", m, "r", r); return r; };
  Raw paths{"[]"}, st{"[]"}; bool timed = false;
  const std::vector<const char*> names{"total_samples", "successful_samples", "failed_samples", "total_states", "solutions",
                                       "start_tree_active_iterations", "goal_tree_active_iterations", "active_tree_swaps"};
  const auto how = drv::Try([&] {
    if (single)
    {
      const auto r = rrt::BiRRTPlanSinglePath<St, Tree>(A, B, stype, sample, tsamp, near, prop, added, conn, bridge, sact, term);
      paths = r.Path().empty() ? Raw{"[]"} : Raw{"[" + JP(r.Path()).s + "]"}; st = Stat(r.Statistics(), names); timed = r.Statistics().at("planning_time") >= 0;
    }
    else
    {
      const auto r = rrt::BiRRTPlanMultiPath<St, Tree, std::list<St>>(A, B, stype, sample, tsamp, near, prop, added, conn, bridge, sact, term);
      paths = JPaths(r.Paths()); st = Stat(r.Statistics(), names); timed = r.Statistics().at("planning_time") >= 0;
    } });
  c.Ev("k", "end", "how", how, "A", JT(A), "B", JT(B), "paths", paths, "st", st, "timed", timed);
}
// The library's own helper functions. Random draws are scripted multiples of 1/64.
static void HelpCase(Tokens& t, Case& c)
{
  using AT = rrt::BiRRTActiveTreeType; using SM = rrt::BiRRTSampleType;
  int u = 0; std::vector<int> us; size_t ui = 0;
  const common_robotics_utilities::utility::UniformUnitRealFunction draw = [&] { if (!us.empty()) u = us[ui++ % us.size()]; return u / 64.0; };
  while (t.Has())
  {
    const std::string op = t.Str(); us.clear(); ui = 0;
    if (op == "stype" || op == "sact")
    {
      const int p = t.Int(), act = t.Int(); std::string o; Tree A, B;
      const auto how = drv::Try([&] {
        const auto f = rrt::MakeUniformRandomBiRRTSelectSampleTypeFunction<St>(draw, op == "stype" ? p / 64.0 : 0.5);
        const auto g = rrt::MakeUniformRandomBiRRTSelectActiveTreeFunction<St>(draw, op == "sact" ? p / 64.0 : 0.5);
        for (u = 0; u < 64; u++)
        {
          const AT x = act ? AT::GOAL_TREE : AT::START_TREE;
          const int r = op == "stype" ? (f(A, B, x) == SM::TREE_SAMPLE ? 1 : 0) : (g(A, B, x) == AT::GOAL_TREE ? 1 : 0);
          if (u) o += ","; o += J(r);
        } });
      c.Ev("op", op, "p", p, "act", act, "how", how, "r", Raw{"[" + o + "]"});
    }
    else if (op == "tsamp")
    {
      Tree T; const int n = t.Int(); for (int i = 0; i < n; i++) T.AddNode(St{i});
      std::vector<int> r; const auto f = rrt::MakeUniformRandomBiRRTTreeSamplingFunction<St>(draw);
      const auto how = drv::Try([&] { for (u = 0; u < 64; u++) r.push_back(f(T, AT::START_TREE)); });
      c.Ev("op", op, "n", n, "how", how, "r", r);
    }
    else if (op == "goals")
    {
      const int bias = t.Int(); const auto gs = t.List(); us = t.List(); const int n = t.Int();
      std::vector<Sm> G; for (int g : gs) G.push_back(Sm{g});
      std::vector<int> r, d; int fresh = 1000;
      const auto how = drv::Try([&] {
        auto f = rrt::MakeStateAndGoalsSamplingFunction<Sm>([&] { return Sm{fresh++}; }, G, bias / 64.0, draw);
        for (int i = 0; i < n; i++) { r.push_back(f().v); d.push_back(ui); } });
      c.Ev("op", op, "bias", bias, "G", gs, "us", us, "how", how, "r", r, "d", d);
    }
    else if (op == "near")
    {
      const int bi = t.Int(), thr = t.Int(), x = t.Int(); const auto vs = t.List(); Tree T; for (int v : vs) T.AddNode(St{v});
      const common_robotics_utilities::parallelism::DegreeOfParallelism par(thr); long r = -1;
      const auto how = drv::Try([&] {
        if (bi == 0) r = rrt::MakeLinearRRTNearestNeighborsFunction<St, Tree, Sm>([](const St& a, const Sm& b) { return drv::Fine(std::abs(double(a.v - b.v))); }, par)(T, Sm{x});
        else if (bi == 1) r = rrt::MakeKinematicLinearRRTNearestNeighborsFunction<St>([](const St& a, const St& b) { return drv::Fine(std::abs(double(a.v - b.v))); }, par)(T, St{x});
        else r = rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<St>([](const St& a, const St& b) { return drv::Fine(std::abs(double(a.v - b.v))); }, par)(T, St{x}, AT::GOAL_TREE); });
      c.Ev("op", op, "vs", vs, "x", x, "how", how, "r", r);
    }
    else if (op == "prop")
    {
      // states on a line of 1/8 units; an edge is valid when it crosses no blocked unit interval
      const int kind = t.Int(), a = t.Int(), b = t.Int(), step = t.Int(); const auto blocked = t.List();
      std::vector<std::pair<int, int>> asked; Raw r{"[]"};
      const auto dist = [](const St& p, const St& q) { return std::abs(double(p.v - q.v)) / 8.0; };
      const auto interp = [](const St& p, const St& q, const double f) { return St{static_cast<int>(std::llround(p.v + f * (q.v - p.v)))}; };
      const auto edge = [&](const St& p, const St& q) {
        asked.push_back({p.v, q.v}); const int lo = std::min(p.v, q.v), hi = std::max(p.v, q.v);
        for (int z : blocked) if (lo <= z && z < hi) return false;
        return true; };
      const auto how = drv::Try([&] {
        if (kind == 0) r = JProp(rrt::MakeKinematicRRTExtendPropagationFunction<St>(dist, interp, edge, step / 8.0)(St{a}, St{b}));
        else if (kind == 1) r = JProp(rrt::MakeKinematicBiRRTExtendPropagationFunction<St>(dist, interp, edge, step / 8.0)(St{a}, St{b}, AT::START_TREE));
        else if (kind == 2) r = JProp(rrt::MakeKinematicRRTConnectPropagationFunction<St>(dist, interp, edge, step / 8.0)(St{a}, St{b}));
        else r = JProp(rrt::MakeKinematicBiRRTConnectPropagationFunction<St>(dist, interp, edge, step / 8.0)(St{a}, St{b}, AT::GOAL_TREE)); });
      c.Ev("op", op, "con", kind >= 2, "a", a, "b", b, "step", step, "blk", blocked, "how", how, "r", r);
    }
    else if (op == "time")
    {
      // a clock that has not run out, one that certainly has, one not started
      std::vector<int> r; const auto chk = [&](const char* h) { r.push_back(std::string(h) == "ok" ? 1 : std::string(h) == "err" ? 2 : 3); };
      const auto nap = [] { std::this_thread::sleep_for(std::chrono::milliseconds(2)); };
      rrt::TimeoutCheckHelper slow(1e6), fast(1e-9);
      chk(drv::Try([&] { slow.Check(); }).c_str());
      r.push_back(slow.CheckOrStart()); r.push_back(slow.Check()); r.push_back(slow.CheckOrStart());
      r.push_back(fast.CheckOrStart()); nap(); r.push_back(fast.CheckOrStart()); r.push_back(fast.Check());
      fast.Reset(); r.push_back(fast.CheckOrStart()); nap(); r.push_back(fast.Check()); fast.Start(); nap(); r.push_back(fast.CheckOrStart());
      fast.Reset(); chk(drv::Try([&] { fast.Check(); }).c_str());
      chk(drv::Try([&] { rrt::TimeoutCheckHelper z(0.0); }).c_str()); chk(drv::Try([&] { rrt::TimeoutCheckHelper z(-1.0); }).c_str());
      auto f = rrt::MakeRRTTimeoutTerminationFunction(1e-9), g = rrt::MakeRRTTimeoutTerminationFunction(1e6);
      auto f2 = rrt::MakeBiRRTTimeoutTerminationFunction(1e-9), g2 = rrt::MakeBiRRTTimeoutTerminationFunction(1e6);
      const bool a = f(1), b = g(1), a2 = f2(1, 1), b2 = g2(1, 1); nap();
      r.insert(r.end(), {a, b, a2, b2, f(2), g(2), f2(2, 2), g2(2, 2)});
      c.Ev("op", op, "r", r);
    }
    else _exit(2);
  }
}
int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [](Tokens& t, Case& c) {
    const std::string k = t.Str();
    if (k == "tree") TreeCase(t, c); else if (k == "rrt") RrtCase(t, c); else if (k == "bi") BiCase(t, c); else if (k == "help") HelpCase(t, c); else _exit(2); });
}
