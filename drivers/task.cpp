// Task planning and execution (C14).
#include "drv.hpp"
#include <common_robotics_utilities/simple_task_planner.hpp>
namespace tp = common_robotics_utilities::simple_task_planner;
using drv::Case; using drv::Tokens; using drv::Raw; using drv::J;
// Two states with the same value are equal; the tag says which object it is.
struct S { int v = 0; int tag = 0; };
struct H { size_t operator()(const S& s) const { return static_cast<size_t>(s.v % 2); } };
struct Eq { bool operator()(const S& a, const S& b) const { return a.v == b.v; } };
using C = std::vector<S>;
static Raw JS(const S& s) { return Raw{"[" + J(s.v) + "," + J(s.tag) + "]"}; }
static Raw JC(const C& c) { std::string o; for (const S& s : c) { if (!o.empty()) o += ","; o += JS(s).s; } return Raw{"[" + o + "]"}; }
static Raw JPlan(const tp::TaskStateAstarResult<S>& r)
{
  std::string o;
  for (const auto& x : r.Path()) { if (!o.empty()) o += ","; o += "[" + J(x.Outcome().v) + "," + J(x.PrimitiveIndex() + 1) + "]"; }
  return Raw{"[" + o + "]"};
}
int main(int argc, char** argv)
{
  return drv::Main(argc, argv, [](Tokens& t, Case& c) {
    const int n = t.Int(), np = t.Int();
    std::vector<std::vector<int>> cand(np, std::vector<int>(n));
    std::vector<std::vector<std::vector<std::pair<int, int>>>> out(np, std::vector<std::vector<std::pair<int, int>>>(n));
    for (int p = 0; p < np; p++) for (int s = 0; s < n; s++)
    { cand[p][s] = t.Int(); const int k = t.Int(); for (int i = 0; i < k; i++) { const int v = t.Int(), w = t.Int(); out[p][s].push_back({v, w}); } }
    const auto done = t.List(); const std::set<int> D(done.begin(), done.end());
    const int hasH = t.Int(); std::vector<int> h = t.List();
    c.Head("n", n, "cand", cand, "out", out, "done", done, "h", h);
    int tag = 1; bool quiet = false;
    std::vector<std::vector<int>> script; size_t k = 0;
    const auto mk = [&](const std::vector<int>& vs) { C o; for (int v : vs) o.push_back(S{v, tag++}); return o; };
    tp::ActionPrimitiveCollection<S> coll;
    const auto prim = [&](int p) {
      return std::make_shared<tp::ActionPrimitiveWrapper<S>>(
        [&, p](const S& s) { return cand[p][s.v] == 1; },
        [&, p](const S& s) { tp::OutcomesWithCosts<S> o; for (const auto& x : out[p][s.v]) o.emplace_back(S{x.first, -1}, drv::Fine(x.second)); return o; },
        [&, p](const S& s) {
          const std::vector<int> vs = script.empty() ? std::vector<int>{} : script[k++ % script.size()];
          const bool thrown = !vs.empty() && vs[0] < 0;
          const C o = thrown ? C() : mk(vs);
          c.Ev("k", quiet ? "qexec" : "exec", "prim", p + 1, "s", JS(s), "S", JC(o), "thrown", thrown);
          if (thrown) throw std::runtime_error("primitive failed");
          return o; },
        "p" + std::to_string(p)); };
    for (int p = 0; p < np; p++) coll.RegisterPrimitive(prim(p));
    const tp::TaskSequenceCompleteFunction<S> complete = [&](const S& s) { return D.count(s.v) > 0; };
    tp::StateHeuristicFunction<S> heur; if (hasH) heur = [&](const S& s) { return drv::Fine(static_cast<double>(h[s.v])); };
    const auto pi = [&](const tp::ActionPrimitiveSharedPtr<S>& p) { return p ? std::atoi(p->Name().c_str() + 1) + 1 : 0; };
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "plan")
      {
        const C st = mk(t.List()); Raw P{"[]"}; Raw cost{"0"};
        const auto how = drv::Try([&] { const auto r = tp::PlanTaskStateSequence<S, C, H, Eq>(coll, complete, st, heur); P = JPlan(r); cost = drv::DU(r.PathCost()); });
        c.Ev("k", "plan", "S", JC(st), "how", how, "plan", P, "cost", cost);
      }
      else if (op == "next")
      {
        const C st = mk(t.List()); Raw P{"[]"}; Raw cost{"0"}; int sel = -1, pr = -1;
        const auto how = drv::Try([&] { const auto r = tp::GetNextPrimitiveToExecute<S, C, H, Eq>(coll, complete, st, heur);
          P = JPlan(r.PlanningResult()); cost = drv::DU(r.PlanningResult().PathCost()); sel = r.SelectedOutcomeIndex(); pr = pi(r.ActionPrimitive()); });
        c.Ev("k", "next", "S", JC(st), "how", how, "plan", P, "cost", cost, "sel", sel, "prim", pr);
      }
      else if (op == "go" || op == "quiet")
      {
        quiet = op == "quiet"; const int lim = t.Int(); const C st = mk(t.List()); const int m = t.Int();
        script.clear(); k = 0; for (int i = 0; i < m; i++) script.push_back(t.List());
        c.Ev("k", op, "S", JC(st), "lim", lim);
        Raw tr{"[]"}; std::string how;
        if (!quiet) how = drv::Try([&] {
          tr = JC(tp::PerformSingleTaskExecution<S, C, H, Eq>(coll, complete, st, lim, heur, H(), Eq(),
            [&](const S& s, const tp::ActionPrimitiveSharedPtr<S>& p, const tp::TaskStateAstarResult<S>& r) { c.Ev("k", "pre", "s", JS(s), "prim", pi(p), "plan", JPlan(r), "cost", drv::DU(r.PathCost())); },
            [&](const C& o) { c.Ev("k", "post", "S", JC(o)); },
            [&](const C& o, const int64_t i, const tp::TaskStateAstarResult<S>& r) { c.Ev("k", "outcome", "S", JC(o), "sel", i, "plan", JPlan(r), "cost", drv::DU(r.PathCost())); })); });
        else how = drv::Try([&] {
          tr = st.size() == 1 ? JC(tp::PerformSingleTaskExecution<S, C, H, Eq>(coll, complete, st[0], lim, heur))
                              : JC(tp::PerformSingleTaskExecution<S, C, H, Eq>(coll, complete, st, lim, heur)); });
        c.Ev("k", quiet ? "qend" : "end", "how", how, "trace", tr);
      }
      else if (op == "coll")
      {
        // a second collection, only for its bookkeeping
        tp::ActionPrimitiveCollection<S> cc; const int m = t.Int();
        const auto names = [&] { std::vector<int> r; for (const auto& p : cc.Primitives()) r.push_back(std::atoi(p->Name().c_str() + 1)); return r; };
        for (int i = 0; i < m; i++)
        {
          const std::string o = t.Str();
          if (o == "reg") { const int a = t.Int(); const auto how = drv::Try([&] { cc.RegisterPrimitive(prim(a)); }); c.Ev("k", "reg", "name", a, "how", how, "names", names()); }
          else if (o == "unreg")
          {
            const auto L = t.List(); std::unordered_set<std::string> q; for (int a : L) q.insert("p" + std::to_string(a));
            if (L.size() == 1) cc.UnregisterPrimitiveByName(*q.begin()); else cc.UnregisterPrimitivesByName(q);
            c.Ev("k", "unreg", "L", L, "names", names());
          }
          else { cc.ClearPrimitives(); c.Ev("k", "clear", "names", names()); }
        }
      }
      else _exit(2);
    }
  }, 20);
}
