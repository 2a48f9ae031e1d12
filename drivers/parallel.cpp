// Runs one parallel loop per case, optionally with gated work items so that a given
// completion order is forced, and records start/end of every work item.
#include <chrono>
#include <condition_variable>
#include <thread>
#include <future>
#include <common_robotics_utilities/parallelism.hpp>
#include "drv.hpp"
using namespace common_robotics_utilities::parallelism;
using drv::Case;
struct Boom : std::runtime_error { int64_t x; explicit Boom(int64_t v) : std::runtime_error("boom"), x(v) {} };

struct Run
{
  // configuration
  int backend, sched, kind, ctx; int64_t base, lo, n; int deg; bool gated; int fail_every;
  std::vector<int> schedule;
  // state
  std::mutex m; std::condition_variable cv;
  std::vector<std::pair<int64_t, int>> waiting;   // started, gated (first index, order)
  std::map<int64_t, int> verdict;                 // first index -> 1 finish / 2 fail
  bool over = false;
  int started = 0, ended = 0, order = 0;
  std::vector<int64_t> effect;                    // plain memory written by the work
  Case* c;

  long long Rel(int64_t i) const
  { const int64_t r = i - base; return r > 1000000000 || r < -1000000000 ? 1999999999LL : static_cast<long long>(r); }

  void Item(int64_t a, int64_t b, int t, bool log)
  {
    int v = 1;
    {
      std::unique_lock<std::mutex> lk(m);
      if (log) c->Ev("op", "start", "a", Rel(a), "b", Rel(b), "t", t);
      started++;
      if (gated)
      {
        waiting.emplace_back(a, order++);
        cv.notify_all();
        cv.wait(lk, [&] { return verdict.count(a) > 0 || over; });
        if (verdict.count(a)) v = verdict[a];
      }
      else if (fail_every > 0 && (a - lo) % fail_every == fail_every - 1) v = 2;
    }
    if (!gated && ((a * 7 + t) % 3) == 0) std::this_thread::yield();
    for (int64_t i = a; i < b && i >= lo && i < lo + n; i++) effect[static_cast<size_t>(i - lo)]++;
    {
      std::unique_lock<std::mutex> lk(m);
      ended++;
      if (log) c->Ev("op", v == 2 ? "fail" : "fin", "a", Rel(a), "b", Rel(b), "t", t);
      cv.notify_all();
    }
    if (v == 2) { if ((Rel(a) & 3) == 1) throw Rel(a); throw Boom(Rel(a)); }
  }

  void Controller()
  {
    std::unique_lock<std::mutex> lk(m);
    size_t step = 0;
    while (!over)
    {
      // quiescence: as many as can run have started, or nothing new for a while
      int last = -1;
      while (!over)
      {
        const int64_t left = n - ended;
        if (!waiting.empty() && static_cast<int64_t>(waiting.size()) >= std::min<int64_t>(deg, left)) break;
        last = started;
        const bool more = cv.wait_for(lk, std::chrono::milliseconds(2), [&] { return over || started != last; });
        if (!more && !waiting.empty()) break;
      }
      if (over || waiting.empty()) continue;
      // oldest first, ties by index; choose by the schedule
      std::sort(waiting.begin(), waiting.end());
      const int k = step < schedule.size() ? schedule[step] : 0;
      const int f = step + 1 < schedule.size() ? schedule[step + 1] : 1;
      step += 2;
      const size_t pos = static_cast<size_t>(k) % waiting.size();
      const int64_t a = waiting[pos].first;
      waiting.erase(waiting.begin() + static_cast<long>(pos));
      const int e = ended;
      verdict[a] = f;
      cv.notify_all();
      cv.wait(lk, [&] { return ended > e || over; });
      // After a failure give the loop time to end too early, if it would.
      if (f == 2) cv.wait_for(lk, std::chrono::milliseconds(3), [&] { return over; });
    }
    cv.notify_all();
  }

  void Loop(bool log)
  {
    const DegreeOfParallelism d(deg);
    const ParallelForBackend b = backend == 0 ? ParallelForBackend::OPENMP
        : backend == 1 ? ParallelForBackend::ASYNC : ParallelForBackend::BEST_AVAILABLE;
    const auto rf = [&](const ThreadWorkRange& w)
    {
      if (gated || fail_every > 0 || true) Item(w.GetRangeStart(), w.GetRangeEnd(), w.GetThreadNum(), log);
    };
    const auto xf = [&](const int32_t t, const int64_t i) { Item(i, i + 1, t, log); };
    if (kind == 0) { if (sched == 0) StaticParallelForRangeLoop(d, lo, lo + n, rf, b); else DynamicParallelForRangeLoop(d, lo, lo + n, rf, b); }
    else { if (sched == 0) StaticParallelForIndexLoop(d, lo, lo + n, xf, b); else DynamicParallelForIndexLoop(d, lo, lo + n, xf, b); }
  }

  // A range that ends before it starts or a degree below one: nothing to do but to say so.
  void Bad()
  {
    const int64_t size = n; n = 0;
    std::string how = "ret";
    const auto loop = [&] { n = size; Loop(false); };
    try { loop(); } catch (const std::exception&) { how = "err"; } catch (...) { how = "alien"; }
    std::unique_lock<std::mutex> lk(m);
    c->Ev("op", "bad", "lo", Rel(lo), "hi", Rel(lo + size), "deg", std::max(deg, -1000), "how", how, "ran", started);
    n = 0;
  }

  void Whole()
  {
    if (n < 0 || deg < 1) return Bad();
    c->Ev("op", "call", "lo", Rel(lo), "hi", Rel(lo + n), "deg", deg);
    std::string how = "ret"; long long x = -1;
    try { Loop(true); }
    catch (const Boom& e) { how = "raise"; x = e.x; }
    catch (long long v) { how = "raise"; x = v; }
    catch (...) { how = "raise"; x = -999; }
    {
      std::unique_lock<std::mutex> lk(m);
      if (how == "ret")
      {
        long long vis = 0;
        for (const int64_t v : effect) vis += v == 1 ? 1 : 0;
        c->Ev("op", "ret", "vis", vis);
      }
      else c->Ev("op", "raise", "x", x);
    }
  }
};

// Ranges too large to visit one by one, shared out in one piece per thread.
static std::vector<long long> Limbs(int64_t v)
{
  const uint64_t u = static_cast<uint64_t>(v) ^ (uint64_t(1) << 63);
  return {static_cast<long long>(u >> 44), static_cast<long long>((u >> 22) & 0x3fffff), static_cast<long long>(u & 0x3fffff)};
}
static void Huge(drv::Tokens& t, Case& c)
{
  const int backend = static_cast<int>(t.Int()); const int64_t lo = t.Int(), hi = t.Int(); const int deg = static_cast<int>(t.Int());
  const ParallelForBackend b = backend == 0 ? ParallelForBackend::OPENMP : backend == 1 ? ParallelForBackend::ASYNC : ParallelForBackend::BEST_AVAILABLE;
  c.Head("backend", backend, "huge", true);
  std::mutex m; std::vector<std::pair<int64_t, int64_t>> got; bool tn = true;
  const std::string how = drv::Try([&] {
    StaticParallelForRangeLoop(DegreeOfParallelism(deg), lo, hi, [&](const ThreadWorkRange& w) {
      const std::lock_guard<std::mutex> lk(m); got.emplace_back(w.GetRangeStart(), w.GetRangeEnd()); tn = tn && w.GetThreadNum() >= 0 && w.GetThreadNum() < deg; }, b); });
  std::sort(got.begin(), got.end());
  std::vector<std::vector<std::vector<long long>>> r;
  for (auto& g : got) r.push_back({Limbs(g.first), Limbs(g.second)});
  c.Ev("op", "huge", "lo", Limbs(lo), "hi", Limbs(hi), "how", how, "tn", tn, "r", r);
  // the sharing itself, for any number of threads
  while (t.Has())
  {
    const int64_t nt = t.Int(); const auto ks = t.List<int64_t>();
    std::vector<std::vector<std::vector<long long>>> adj; std::vector<std::vector<long long>> ends(2);
    const std::string h2 = drv::Try([&] {
      ends[0] = Limbs(CalcStaticThreadRangeStartAndEnd(lo, hi, nt, 0).first); ends[1] = Limbs(CalcStaticThreadRangeStartAndEnd(lo, hi, nt, nt - 1).second);
      for (const int64_t k : ks)
      {
        if (k + 1 >= nt) continue;
        const auto x = CalcStaticThreadRangeStartAndEnd(lo, hi, nt, k), y = CalcStaticThreadRangeStartAndEnd(lo, hi, nt, k + 1);
        adj.push_back({Limbs(x.first), Limbs(x.second), Limbs(y.first), Limbs(y.second)});
      } });
    c.Ev("op", "share", "lo", Limbs(lo), "hi", Limbs(hi), "how", h2, "ends", ends, "adj", adj);
  }
}

static void DoCase(drv::Tokens& t, Case& c)
{
  const int first = static_cast<int>(t.Int());
  if (first == 9) return Huge(t, c);
  Run r;
  r.c = &c;
  r.backend = first; r.sched = static_cast<int>(t.Int()); r.kind = static_cast<int>(t.Int());
  r.ctx = static_cast<int>(t.Int()); r.base = t.Int(); r.lo = r.base + t.Int(); r.n = t.Int();
  r.deg = static_cast<int>(t.Int()); r.gated = t.Int() != 0; r.fail_every = static_cast<int>(t.Int());
  r.schedule = t.List();
  r.effect.assign(static_cast<size_t>(std::max<int64_t>(0, r.n)), 0);
  c.Head("backend", r.backend, "sched", r.sched, "kind", r.kind, "ctx", r.ctx, "gated", r.gated);
  std::thread controller;
  if (r.gated) controller = std::thread([&] { r.Controller(); });
  const auto finish = [&]
  {
    // Let late work show itself before the end is recorded.
    { std::unique_lock<std::mutex> lk(r.m); const bool bad = r.started != r.ended; lk.unlock();
      std::this_thread::sleep_for(std::chrono::microseconds(bad ? 3000 : (r.fail_every || r.gated ? 300 : 20))); }
    { std::unique_lock<std::mutex> lk(r.m); c.Ev("op", "end"); r.over = true; r.cv.notify_all(); }
    if (controller.joinable()) controller.join();
    std::unique_lock<std::mutex> lk(r.m);
    r.cv.wait_for(lk, std::chrono::seconds(2), [&] { return r.started == r.ended; });
  };
#if defined(_OPENMP)
  const int levels = omp_get_max_active_levels(); const int nthr = omp_get_max_threads(); const int dyn = omp_get_dynamic();
  if (r.ctx == 1)
  {
    #pragma omp parallel num_threads(2)
    {
      #pragma omp single
      { r.Whole(); }
    }
  }
  else if (r.ctx == 2)
  {
    omp_set_max_active_levels(3);
    #pragma omp parallel num_threads(2)
    {
      #pragma omp master
      { r.Whole(); }
    }
    omp_set_max_active_levels(levels);
  }
  else if (r.ctx == 3) { omp_set_num_threads(1); r.Whole(); omp_set_num_threads(nthr); }
  else if (r.ctx == 5) { omp_set_dynamic(1); r.Whole(); omp_set_dynamic(dyn); }
  else if (r.ctx == 6)
  {
    omp_set_max_active_levels(2);
    #pragma omp parallel num_threads(3)
    {
      if (omp_get_thread_num() == 0) r.Whole();
      else
      {
        Run o; Case dummy; o.c = &dummy; o.backend = r.backend; o.sched = r.sched; o.kind = r.kind;
        o.base = 0; o.lo = 0; o.n = r.n; o.deg = r.deg; o.gated = false; o.fail_every = 0; o.effect.assign(static_cast<size_t>(r.n), 0);
        o.Loop(false);
      }
    }
    omp_set_max_active_levels(levels);
  }
  else
#endif
  if (r.ctx == 4) std::async(std::launch::async, [&] { r.Whole(); }).get();
  else if (r.ctx == 7)
    StaticParallelForIndexLoop(DegreeOfParallelism(2), 0, 2, [&](int32_t, int64_t i) { if (i == 1) r.Whole(); }, ParallelForBackend::ASYNC);
  else if (r.ctx == 8)
    DynamicParallelForIndexLoop(DegreeOfParallelism(2), 0, 2, [&](int32_t, int64_t i) { if (i == 1) r.Whole(); });
  else r.Whole();
  finish();
}
int main(int argc, char** argv) { return drv::Main(argc, argv, DoCase, 40); }
