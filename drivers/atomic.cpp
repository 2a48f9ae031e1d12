// Copyable atomics (C28). "s": one thread, operations as told. "c": a few threads whose every
// order of accesses to std::atomic is played through, one access at a time.
#include <atomic>
#include <ucontext.h>
struct Probe { int v = 0; Probe() = default; explicit Probe(int x) : v(x) {} };
inline Probe operator+(const Probe& a, const Probe& b) { return Probe(a.v + b.v); }
inline Probe operator-(const Probe& a, const Probe& b) { return Probe(a.v - b.v); }
inline Probe& operator+=(Probe& a, const Probe& b) { a.v += b.v; return a; }
inline Probe& operator-=(Probe& a, const Probe& b) { a.v -= b.v; return a; }
inline bool operator==(const Probe& a, const Probe& b) { return a.v == b.v; }
inline bool operator!=(const Probe& a, const Probe& b) { return a.v != b.v; }
static void Yield();
template<> struct std::atomic<Probe>
{
  using value_type = Probe; using difference_type = Probe; using M = std::memory_order;
  static constexpr M S = std::memory_order_seq_cst; static constexpr bool is_always_lock_free = true;
  atomic() noexcept = default; constexpr atomic(Probe p) noexcept : p_(p) {}
  atomic(const atomic&) = delete; atomic& operator=(const atomic&) = delete;
  bool is_lock_free() const noexcept { return true; }
  Probe load(M = S) const { Yield(); return p_; }
  void store(Probe x, M = S) { Yield(); p_ = x; }
  Probe exchange(Probe x, M = S) { Yield(); std::swap(x, p_); return x; }
  Probe fetch_add(Probe x, M = S) { Yield(); const Probe o = p_; p_ += x; return o; }
  Probe fetch_sub(Probe x, M = S) { Yield(); const Probe o = p_; p_ -= x; return o; }
  bool compare_exchange_strong(Probe& e, Probe x, M = S, M = S) { Yield(); if (p_ == e) { p_ = x; return true; } e = p_; return false; }
  bool compare_exchange_weak(Probe& e, Probe x, M = S, M = S) { return compare_exchange_strong(e, x); }
  operator Probe() const { return load(); }
  Probe operator=(Probe x) { store(x); return x; }
  Probe operator+=(Probe x) { return fetch_add(x) + x; }
  Probe operator-=(Probe x) { return fetch_sub(x) - x; }
private:
  Probe p_{};
};
#include "drv.hpp"
#include <memory>
#include <common_robotics_utilities/utility.hpp>
using namespace drv;
namespace ut = common_robotics_utilities::utility;
constexpr auto R = std::memory_order_relaxed;
// ---- one thread ----
template<typename T, std::memory_order O> using A = ut::CopyableMoveableAtomic<T, O>;
template<typename T> struct Cells
{
  std::unique_ptr<A<T, std::memory_order_seq_cst>> s[5]; std::unique_ptr<A<T, R>> r[5];
  template<typename F> void With(long long i, F f) { if (i <= 2) f(s[i]); else f(r[i]); }
};
template<typename T, typename P> static T Arith(P& p, const std::string& op, T v, long long o)
{
  const std::memory_order m[] = {std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst};
  if constexpr (!std::is_same_v<T, bool>)
  {
    if (op == "add") return o < 0 ? p->fetch_add(v) : p->fetch_add(v, m[o]);
    if (op == "sub") return o < 0 ? p->fetch_sub(v) : p->fetch_sub(v, m[o]);
  }
  if (op == "load") return o < 0 ? p->load() : p->load(o == 2 || o == 3 ? m[1] : m[o]);
  if (o < 0) p->store(v); else p->store(v, o == 1 || o == 3 ? m[2] : m[o]);
  return 0;
}
template<typename T> static void Alone(Tokens& t, Case& c)
{
  Cells<T> k;
  for (int i = 1; i <= 4; i++) k.With(i, [](auto& p) { p = std::make_unique<std::decay_t<decltype(*p)>>(); });
  while (t.Has())
  {
    const std::string op = t.Str(); const auto i = t.Int();
    if (op == "new") { const auto v = t.Int(); k.With(i, [&](auto& p) { p = std::make_unique<std::decay_t<decltype(*p)>>(static_cast<T>(v)); }); c.Ev("op", op, "i", i, "v", v); }
    else if (op == "def") { k.With(i, [](auto& p) { p = std::make_unique<std::decay_t<decltype(*p)>>(); }); c.Ev("op", op, "i", i); }
    else if (op == "cctor" || op == "mctor" || op == "cassign" || op == "massign")
    {
      const auto j = t.Int();
      k.With(i, [&](auto& p) { k.With(j, [&](auto& q) {
        using Q = std::decay_t<decltype(*q)>;
        if (op == "cctor") { auto n = std::make_unique<Q>(*p); q = std::move(n); }
        else if (op == "mctor") { auto n = std::make_unique<Q>(std::move(*p)); if (i != j) q = std::move(n); }
        else if (op == "cassign") *q = *p;
        else *q = std::move(*p); }); });
      c.Ev("op", op, "i", i, "j", j);
    }
    else
    {
      const auto v = op == "load" ? 0 : t.Int(); const auto o = t.Int(); long long r = 0;
      k.With(i, [&](auto& p) { r = static_cast<long long>(Arith<T>(p, op, static_cast<T>(v), o)); });
      c.Ev("op", op, "i", i, "v", v, "r", r);
    }
  }
}
// ---- every order of accesses of a few threads ----
struct Op { std::string op; int i, j, v; };
static ucontext_t g_main, g_fiber[4]; static std::vector<char> g_stack[4]; static int g_running = -1; static bool g_done[4];
static void Yield() { if (g_running >= 0) swapcontext(&g_fiber[g_running], &g_main); }
using PA = A<Probe, std::memory_order_seq_cst>; using PR = A<Probe, R>;
static std::vector<std::vector<Op>> g_prog; static std::unique_ptr<PA> g_cell[3]; static std::unique_ptr<PR> g_rel; static Case* g_case;
template<typename P> static int Do(P& a, const Op& o)
{
  if (o.op == "load") return a.load().v;
  if (o.op == "store") { a.store(Probe(o.v)); return 0; }
  if (o.op == "add") return a.fetch_add(Probe(o.v)).v;
  return a.fetch_sub(Probe(o.v)).v;
}
static void Body(int t)
{
  for (const Op& o : g_prog[static_cast<size_t>(t)])
  {
    int r = 0; const bool copies = o.op.size() > 4 && o.op.compare(o.op.size() - 4, 4, "ctor") == 0;
    const bool assigns = o.op.find("assign") != std::string::npos;
    g_case->Ev("op", copies ? "load" : assigns ? "assign" : o.op, "t", t + 1, "i", o.i, "j", o.j, "v", o.v);
    const auto with = [&](int i, auto f) { if (i == 3) f(*g_rel); else f(*g_cell[i]); };
    with(o.i, [&](auto& a) {
      using X = std::decay_t<decltype(a)>;
      // a copy is this thread's own: looking at it is not an access others can see
      const auto value = [](const auto& n) { const int was = g_running; g_running = -1; const int v = n.load().v; g_running = was; return v; };
      if (o.op == "cctor") { const X n(a); r = value(n); }
      else if (o.op == "mctor") { const X n(std::move(a)); r = value(n); }
      else if (o.op == "xctor") { if constexpr (std::is_same_v<X, PA>) { const PR n(a); r = value(n); } else { const PA n(a); r = value(n); } }
      else if (assigns) with(o.j, [&](auto& b) { if (o.op == "cassign") b = a; else b = std::move(a); });
      else r = Do(a, o); });
    g_case->Ev("op", "ret", "t", t + 1, "r", r);
  }
  g_done[t] = true; const int me = g_running; g_running = -1; swapcontext(&g_fiber[me], &g_main);
}
static void Every(Tokens& t, Case& c)
{
  const auto n = t.Int(), most = t.Int(); g_case = &c; g_prog.assign(static_cast<size_t>(n), {});
  c.Head("threads", n);
  for (auto& p : g_prog) { for (auto k = t.Int(); k > 0; k--) { Op o; o.op = t.Str(); o.i = static_cast<int>(t.Int()); o.j = static_cast<int>(t.Int()); o.v = static_cast<int>(t.Int()); p.push_back(o); } }
  std::vector<int> prefix; long long runs = 0;
  while (true)
  {
    g_cell[1] = std::make_unique<PA>(Probe(0)); g_cell[2] = std::make_unique<PA>(Probe(0)); g_rel = std::make_unique<PR>(Probe(0));
    c.Ev("op", "reset", "vals", std::vector<int>{0, 0, 0});
    for (int k = 0; k < n; k++)
    {
      g_done[k] = false; g_stack[k].resize(1 << 17); getcontext(&g_fiber[k]);
      g_fiber[k].uc_stack.ss_sp = g_stack[k].data(); g_fiber[k].uc_stack.ss_size = g_stack[k].size(); g_fiber[k].uc_link = nullptr;
      makecontext(&g_fiber[k], reinterpret_cast<void (*)()>(Body), 1, k);
    }
    std::vector<std::pair<int, int>> taken; // choice, number of choices
    while (true)
    {
      std::vector<int> ready; for (int k = 0; k < n; k++) if (!g_done[k]) ready.push_back(k);
      if (ready.empty() || taken.size() > 200) break;
      const size_t at = taken.size(); const int pick = at < prefix.size() ? prefix[at] : 0;
      taken.push_back({pick, static_cast<int>(ready.size())});
      g_running = ready[static_cast<size_t>(pick)]; swapcontext(&g_main, &g_fiber[g_running]); g_running = -1;
    }
    c.Ev("op", "end", "vals", std::vector<int>{g_cell[1]->load().v, g_cell[2]->load().v, g_rel->load().v});
    prefix.clear(); for (const auto& x : taken) prefix.push_back(x.first);
    while (!taken.empty() && taken.back().first + 1 >= taken.back().second) { taken.pop_back(); prefix.pop_back(); }
    if (taken.empty() || ++runs >= most) break;
    prefix.back()++;
  }
}
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    const std::string mode = t.Str(), type = t.Str(); c.Head("mode", mode);
    c.Head("lo", type == "i8" ? -128 : 0); c.Head("n", type == "i8" || type == "u8" ? 256 : type == "bool" ? 2 : 0);
    if (mode == "c") Every(t, c);
    else if (type == "i8") Alone<int8_t>(t, c);
    else if (type == "u8") Alone<uint8_t>(t, c);
    else if (type == "bool") Alone<bool>(t, c);
    else Alone<int64_t>(t, c);
  }, 60);
}
