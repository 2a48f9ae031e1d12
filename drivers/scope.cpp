// Clean-up at scope end and scoped thread settings (C20). The operations are read while
// they are carried out: after an exception the next ones belong to the block that caught.
#include "drv.hpp"
#include <algorithm>
#include <memory>
#if defined(_OPENMP)
#include <omp.h>
constexpr bool kOmp = true;
#else
constexpr bool kOmp = false;
inline int omp_get_max_threads() { return 1; }
inline int omp_get_thread_limit() { return 1; }
inline int omp_get_dynamic() { return 0; }
inline int omp_in_parallel() { return 0; }
inline void omp_set_num_threads(int) {}
#endif
#include <common_robotics_utilities/openmp_helpers.hpp>
#include <common_robotics_utilities/parallelism.hpp>
#include <common_robotics_utilities/utility.hpp>
using namespace drv;
namespace u = common_robotics_utilities::utility;
namespace oh = common_robotics_utilities::openmp_helpers;
struct Thrown : std::runtime_error { Thrown() : std::runtime_error("thrown") {} };
struct Machine
{
  Tokens& t; Case& c;
  std::map<int, u::OnScopeExit*> live;
  void Ev(const char* op, int x, int r = 0) { c.Ev("op", op, "x", x, "r", r, "n", omp_get_max_threads()); }
  struct Reg { Machine& m; int id; ~Reg() { m.live.erase(id); } };
  void Block(bool catches)
  {
    if (!catches) { Exec(); return; }
    try { Exec(); } catch (const std::exception&) {}
  }
  // returns at the end of the block
  void Exec()
  {
    while (t.Has())
    {
      const std::string op = t.Str(); const int x = static_cast<int>(t.Int());
      if (op == "{") { Ev("{", x); Block(x == 1); }
      else if (op == "}") { Ev("}", 0); return; }
      else if (op == "end") { Ev("end", 0); return; }
      else if (op == "t") { Ev("t", 0); throw Thrown(); }
      else if (op == "g")
      {
        Ev("g", x);
        u::OnScopeExit guard([this, x] { Ev("run", x); });
        live[x] = &guard; Reg reg{*this, x};
        Exec(); return;
      }
      else if (op == "null") { Ev("null", 0); std::function<void(void)> f; u::OnScopeExit guard(f); Exec(); return; }
      else if (op == "n" && x == 1) { Ev("n", x); oh::DisableOmpWrapper w; Exec(); return; }
      else if (op == "n") { Ev("n", x); oh::ChangeOmpNumThreadsWrapper w(x); Exec(); return; }
      else if (op == "d") { if (live.count(x)) { Ev("d", x); live[x]->Disable(); } }
      else if (op == "q") { Ev("q", x, live.count(x) && live[x]->IsEnabled() ? 1 : 0); }
      else if (op == "par")
      {
        int made = 0, in = 0;
        const int before = omp_get_max_threads();
#pragma omp parallel num_threads(2)
        { if (omp_in_parallel()) {
#pragma omp critical
          { in++; if (Try([&] { oh::ChangeOmpNumThreadsWrapper w(x); }) != "err") made++; } } }
        (void)before;
        Ev("par", x, made);
      }
      else if (op == "ask")
      {
        // the library's own answers, outside and inside a parallel region
        const int out_in = oh::IsOmpInParallel(), out_num = oh::GetContextOmpThreadNum(), out_team = oh::GetContextNumOmpThreads(), out_max = oh::GetContextMaxNumOmpThreads();
        const int team = oh::GetNumOmpThreads(), most = oh::GetMaxNumOmpThreads(), lim = std::min(oh::GetOmpThreadLimit(), 2000000000);
        const int degree = common_robotics_utilities::parallelism::DegreeOfParallelism::FromOmp().GetNumThreads();
        std::vector<std::vector<int>> in;
#pragma omp parallel
        {
#pragma omp critical
          in.push_back({oh::GetContextOmpThreadNum(), oh::GetContextNumOmpThreads(), oh::IsOmpInParallel(), oh::GetContextMaxNumOmpThreads()});
        }
        std::sort(in.begin(), in.end());
        c.Ev("op", op, "x", x, "r", 0, "n", omp_get_max_threads(), "out", std::vector<int>{out_in, out_num, out_team, out_max}, "team", team, "most", most, "lim", lim, "degree", degree, "in", in, "built", oh::IsOmpEnabledInBuild());
      }
      else _exit(2);
    }
  }
};
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    const int n0 = static_cast<int>(t.Int());
    omp_set_num_threads(n0);
    c.Head("n0", omp_get_max_threads()); c.Head("omp", kOmp); c.Head("lim", std::min(omp_get_thread_limit(), 2000000000)); c.Head("dyn", static_cast<bool>(omp_get_dynamic()));
    Machine m{t, c, {}};
    try { m.Exec(); } catch (const std::exception&) {}
    while (t.Has()) t.Str();
    m.Ev("over", 0);
  });
}
