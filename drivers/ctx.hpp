// Calls f from different parallel contexts.
#pragma once
#include <future>
#include <functional>
#include <common_robotics_utilities/parallelism.hpp>
namespace drv
{
// 0 top level, 1 inside an OpenMP region (nesting off), 2 inside an OpenMP region
// (nesting on), 3 default thread count 1, 4 inside std::async, 5 dynamic teams,
// 6 several threads at once (f is called by each), 7/8 inside the library's own loops.
inline void RunInContext(int ctx, const std::function<void(int)>& f)
{
  namespace par = common_robotics_utilities::parallelism;
  std::exception_ptr err;
  const auto g = [&](int k) { try { f(k); } catch (...) { err = std::current_exception(); } };
#if defined(_OPENMP)
  const int levels = omp_get_max_active_levels(); const int nthr = omp_get_max_threads(); const int dyn = omp_get_dynamic();
  if (ctx == 1)
  {
    #pragma omp parallel num_threads(2)
    {
      #pragma omp single
      { g(0); }
    }
  }
  else if (ctx == 2)
  {
    omp_set_max_active_levels(3);
    #pragma omp parallel num_threads(2)
    {
      #pragma omp master
      { g(0); }
    }
    omp_set_max_active_levels(levels);
  }
  else if (ctx == 3) { omp_set_num_threads(1); g(0); omp_set_num_threads(nthr); }
  else if (ctx == 5) { omp_set_dynamic(1); g(0); omp_set_dynamic(dyn); }
  else if (ctx == 6)
  {
    #pragma omp parallel num_threads(3)
    { g(omp_get_thread_num()); }
  }
  else
#endif
  if (ctx == 4) std::async(std::launch::async, [&] { g(0); }).get();
  else if (ctx == 7)
    par::StaticParallelForIndexLoop(par::DegreeOfParallelism(2), 0, 2, [&](int32_t, int64_t i) { g(static_cast<int>(i)); }, par::ParallelForBackend::ASYNC);
  else if (ctx == 8)
    par::DynamicParallelForIndexLoop(par::DegreeOfParallelism(3), 0, 3, [&](int32_t, int64_t i) { g(static_cast<int>(i)); });
  else g(0);
  if (err) std::rethrow_exception(err);
}
}  // namespace drv
