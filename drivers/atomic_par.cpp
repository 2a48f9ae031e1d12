// Copyable atomics (C28) used by real threads, under the thread sanitizer. "t": histories;
// "m": one thread writes plain data and then to the atomic, another waits for that and reads.
#include "drv.hpp"
#include <atomic>
#include <memory>
#include <thread>
#include <algorithm>
#include <common_robotics_utilities/utility.hpp>
using namespace drv;
namespace ut = common_robotics_utilities::utility;
template<std::memory_order O> using A = ut::CopyableMoveableAtomic<int32_t, O>;
using PA = A<std::memory_order_seq_cst>;
struct Seen { long long at; std::string s; };
int main(int argc, char** argv)
{
  if (argc > 1 && std::string(argv[1]) == "works") return 0;
  return Main(argc, argv, [](Tokens& t, Case& c) {
    const std::string mode = t.Str(); c.Head("mode", mode); c.Head("lo", 0); c.Head("n", 0);
    if (mode == "m")
    {
      const std::string how = t.Str(); c.Head("threads", 2); int plain = 0; const auto rel = std::memory_order_release, acq = std::memory_order_acquire;
      PA x(0), y(0); A<std::memory_order_relaxed> z(0);
      std::thread w([&] {
        plain = 42;
        if (how == "seq") x.store(1); else if (how == "ra") x.store(1, rel); else if (how == "zra") z.store(1, rel);
        else if (how == "add") x.fetch_add(1); else if (how == "addr") x.fetch_add(1, rel); else if (how == "zaddr") z.fetch_add(1, rel);
        else if (how == "sub") x.fetch_sub(-1); else if (how == "zsubr") z.fetch_sub(-1, rel);
        else if (how == "assign") { const PA one(1); x = one; } else if (how == "massign") x = PA(1); else if (how == "xassign") { const A<std::memory_order_relaxed> one(1); x = one; }
        else if (how == "xmassign") x = A<std::memory_order_relaxed>(1);
        else x.store(1); });
      int got = 0;
      const auto wait = [&](auto look) { for (long long k = 0; k < 2000000000LL && look() != 1; k++) if (k % 64 == 63) std::this_thread::yield(); got = plain; };
      if (how == "ra") wait([&] { return x.load(acq); }); else if (how == "zra" || how == "zaddr" || how == "zsubr") wait([&] { return z.load(acq); });
      else if (how == "addr") wait([&] { return x.fetch_add(0, acq); });
      else if (how == "cctor") wait([&] { const PA n(x); return n.load(); });
      else if (how == "mctor") wait([&] { const PA n(std::move(x)); return n.load(); });
      else if (how == "xctor") wait([&] { const A<std::memory_order_relaxed> n(PA{x}); return n.load(); });
      else if (how == "cassign") wait([&] { y = x; return y.load(); });
      else if (how == "rmw") wait([&] { return x.fetch_sub(0); });
      else wait([&] { return x.load(); });
      w.join();
      c.Ev("op", "reset", "vals", std::vector<int>{42});
      c.Ev("op", "load", "t", 2, "i", 1, "j", 1, "v", 0); c.Ev("op", "ret", "t", 2, "r", got);
      return;
    }
    const auto n = static_cast<size_t>(t.Int()); c.Head("threads", n);
    struct Op { std::string op; int i, j, v; };
    std::vector<std::vector<Op>> prog(n); std::vector<std::vector<Seen>> seen(n);
    for (auto& p : prog) for (auto k = t.Int(); k > 0; k--) { Op o; o.op = t.Str(); o.i = static_cast<int>(t.Int()); o.j = static_cast<int>(t.Int()); o.v = static_cast<int>(t.Int()); p.push_back(o); }
    PA cell[3] = {PA(0), PA(0), PA(0)}; std::atomic<long long> clock(0); std::atomic<size_t> ready(0);
    std::vector<std::thread> th;
    for (size_t k = 0; k < n; k++) th.emplace_back([&, k] {
      std::vector<std::pair<long long, long long>> at(prog[k].size()); std::vector<int> res(prog[k].size(), 0);
      ready++; while (ready.load() < n) {}
      for (size_t m = 0; m < prog[k].size(); m++)
      {
        const Op& o = prog[k][m]; PA& a = cell[o.i]; int r = 0;
        at[m].first = clock.fetch_add(1, std::memory_order_relaxed);
        if (o.op == "load") r = a.load(); else if (o.op == "store") a.store(o.v); else if (o.op == "add") r = a.fetch_add(o.v); else if (o.op == "sub") r = a.fetch_sub(o.v);
        else if (o.op == "cctor") { const PA x(a); r = x.load(); } else cell[o.j] = a;
        at[m].second = clock.fetch_add(1, std::memory_order_relaxed); res[m] = r;
      }
      for (size_t m = 0; m < prog[k].size(); m++)
      {
        const Op& o = prog[k][m];
        seen[k].push_back({at[m].first, Obj("op", o.op == "cctor" ? "load" : o.op == "cassign" ? "assign" : o.op, "t", k + 1, "i", o.i, "j", o.j, "v", o.v).s});
        seen[k].push_back({at[m].second, Obj("op", "ret", "t", k + 1, "r", res[m]).s});
      } });
    for (auto& x : th) x.join();
    std::vector<Seen> all; for (const auto& s : seen) all.insert(all.end(), s.begin(), s.end());
    std::sort(all.begin(), all.end(), [](const Seen& a, const Seen& b) { return a.at < b.at; });
    c.Ev("op", "reset", "vals", std::vector<int>{0, 0});
    for (const auto& s : all) c.Put(s.s);
    c.Ev("op", "end", "vals", std::vector<int>{cell[1].load(), cell[2].load()});
  }, 60);
}
