// Optional values, tagged unions and referring optionals (C19).
#include "drv.hpp"
#include <memory>
#include <new>
#include <common_robotics_utilities/maybe.hpp>
using namespace drv;
namespace cru = common_robotics_utilities;
static std::map<const void*, int> g_live;
static int g_bad = 0;
// faults: the n-th copy or move from now on fails (0: none), or all copies / all moves
static int g_arm = 0; static bool g_copies = false, g_moves = false;
struct Fault : std::runtime_error { Fault() : std::runtime_error("fault") {} };
static void Tick(bool copy)
{
  if ((copy && g_copies) || (!copy && g_moves)) throw Fault();
  if (g_arm > 0 && --g_arm == 0) throw Fault();
}
template<int Alt> struct Tr
{
  int* v;
  explicit Tr(int x) : v(new int(x)) { Born(); }
  Tr(const Tr& o) { o.Use(); Tick(true); v = new int(*o.v); Born(); }
  Tr(Tr&& o) { o.Use(); Tick(false); v = new int(*o.v); *o.v = -1; Born(); }
  Tr& operator=(const Tr& o) { Use(); o.Use(); Tick(true); if (&o != this) *v = *o.v; return *this; }
  Tr& operator=(Tr&& o) { Use(); o.Use(); Tick(false); if (&o != this) { *v = *o.v; *o.v = -1; } return *this; }
  ~Tr() { auto f = g_live.find(this); if (f == g_live.end() || f->second != Alt) { g_bad++; return; } g_live.erase(f); delete v; v = nullptr; }
  void Born() { if (!g_live.emplace(this, Alt).second) g_bad++; }
  void Use() const { if (!g_live.count(this)) g_bad++; }
  int Get() const { auto f = g_live.find(this); if (f == g_live.end() || f->second != Alt) { g_bad++; return -77; } return *v; }
  void Set(int x) { if (g_live.count(this)) *v = x; else g_bad++; }
};
struct Mo : Tr<2>
{
  explicit Mo(int x) : Tr<2>(x) {}
  Mo(const Mo&) = delete; Mo& operator=(const Mo&) = delete;
  Mo(Mo&& o) : Tr<2>(static_cast<Tr<2>&&>(o)) {} Mo& operator=(Mo&& o) { Tr<2>::operator=(static_cast<Tr<2>&&>(o)); return *this; }
};
static Raw V(const char* t) { return Raw{"[" + J(t) + "]"}; }
static Raw V(const char* t, int x) { return Raw{"[" + J(t) + "," + J(x) + "]"}; }

template<typename M, typename T, bool Copy, bool Set> struct Own
{
  using Slot = M;
  static void Mk(void* p, const std::string&, int, int how) { if (how < 0) new (p) M(); }
  static void MkV(void* p, const std::string&, int x, int how)
  {
    using U = typename std::remove_const<T>::type;
    U u(x);
    if constexpr (Copy) { if (how == 0) { new (p) M(static_cast<const U&>(u)); return; } }
    new (p) M(std::move(u));
  }
  static Raw View(M& m)
  {
    const M& k = m; const bool has = k.HasValue();
    if (static_cast<bool>(k) != has) return V("?");
    int a = -9, b = -9;
    const std::string s1 = Try([&] { a = k.Value().Get(); }), s2 = Try([&] { b = m.Value().Get(); });
    if (s1 != (has ? "ok" : "err") || s1 != s2 || a != b) return V("?");
    return has ? V("b", a) : V("e");
  }
  static bool Holds(M& m) { return m.HasValue(); }
  static void SetV(M& m, int x) { if constexpr (Set) m.Value().Set(x); }
  static void Reset(M& m) { m.Reset(); }
};
using TU = cru::internal::TaggedUnion<Tr<1>, Tr<2>>;
struct Uni
{
  using Slot = TU;
  static void Mk(void*, const std::string&, int, int) { _exit(2); }
  static void MkV(void* p, const std::string& a, int x, int how)
  {
    if (a == "a") { Tr<1> u(x); if (how == 0) new (p) TU(static_cast<const Tr<1>&>(u)); else new (p) TU(std::move(u)); }
    else { Tr<2> u(x); if (how == 0) new (p) TU(static_cast<const Tr<2>&>(u)); else new (p) TU(std::move(u)); }
  }
  static Raw View(TU& m) { return m.type_ == TU::TYPE_A ? V("a", m.value_a_.Get()) : m.type_ == TU::TYPE_B ? V("b", m.value_b_.Get()) : V("e"); }
  static bool Holds(TU& m) { return m.type_ == TU::TYPE_A || m.type_ == TU::TYPE_B; }
  static void SetV(TU& m, int x) { if (m.type_ == TU::TYPE_A) m.value_a_.Set(x); else m.value_b_.Set(x); }
  static void Reset(TU&) { _exit(2); }
};
struct Thing { int v = 0; Thing* operator&() { return nullptr; } };  // its address is found another way
static Thing g_obj[3];
template<typename T> struct Refs
{
  using M = cru::ReferencingMaybe<T>; using Slot = M;
  static void Mk(void* p, const std::string&, int, int how) { if (how < 0) new (p) M(); }
  static void MkV(void* p, const std::string&, int x, int) { new (p) M(g_obj[x - 1]); }
  static Raw View(M& m)
  {
    const M& k = m; const bool has = k.HasValue();
    if (static_cast<bool>(k) != has) return V("?");
    const void* a = nullptr; const void* b = nullptr;
    const std::string s1 = Try([&] { a = std::addressof(k.Value()); }), s2 = Try([&] { b = std::addressof(m.Value()); });
    if (s1 != (has ? "ok" : "err") || s1 != s2 || a != b) return V("?");
    if (!has) return V("e");
    for (int i = 0; i < 3; i++) if (a == static_cast<const void*>(std::addressof(g_obj[i]))) return V("r", i + 1);
    return V("?");
  }
  static int Read(M& m) { return m.HasValue() ? m.Value().v : -5; }
  static bool Holds(M& m) { return m.HasValue(); }
  static void SetV(M& m, int x) { if constexpr (!std::is_const<T>::value) m.Value().v = x; }
  static void Reset(M& m) { m.Reset(); }
};

template<typename K, bool Copy, bool IsRef> void RunKind(Tokens& t, Case& c)
{
  using M = typename K::Slot;
  g_live.clear(); g_bad = 0;
  for (auto& o : g_obj) o.v = 0;
  alignas(alignof(M)) static unsigned char raw[3][sizeof(M)];
  M* sl[3] = {nullptr, nullptr, nullptr};
  while (t.Has())
  {
    // op s d alternative value how, then faults: n-th, all copies, all moves
    const std::string op = t.Str(); const int s = static_cast<int>(t.Int()), d = static_cast<int>(t.Int()); const std::string alt = t.Str();
    const int x = static_cast<int>(t.Int()), how = static_cast<int>(t.Int()), arm = static_cast<int>(t.Int()); const bool fc = t.Int(), fm = t.Int();
    M*& D = sl[d - 1]; M*& S = sl[s - 1]; void* p = raw[d - 1];
    std::string st = "skip"; M* made = nullptr;
    auto run = [&](const std::function<void()>& f) { g_arm = arm; g_copies = fc; g_moves = fm; st = Try(f); g_arm = 0; g_copies = g_moves = false; };
    if (op == "mk" && !D) { run([&] { K::Mk(p, alt, x, -1); made = reinterpret_cast<M*>(p); }); D = made; }
    else if (op == "mkv" && !D) { run([&] { K::MkV(p, alt, x, how); made = reinterpret_cast<M*>(p); }); D = made; }
    else if (op == "cp" && !D && S) { if constexpr (Copy) { run([&] { new (p) M(static_cast<const M&>(*S)); made = reinterpret_cast<M*>(p); }); D = made; } }
    else if (op == "mv" && !D && S) { run([&] { new (p) M(std::move(*S)); made = reinterpret_cast<M*>(p); }); D = made; }
    else if (op == "asg" && D && S) { if constexpr (Copy) run([&] { *D = static_cast<const M&>(*S); }); }
    else if (op == "masg" && D && S) run([&] { *D = std::move(*S); });
    else if (op == "reset" && D) run([&] { K::Reset(*D); });
    else if (op == "del" && D) { run([&] { D->~M(); }); D = nullptr; }
    else if (op == "set" && D && K::Holds(*D)) run([&] { K::SetV(*D, x); });
    else if (op == "oset") { g_obj[d - 1].v = x; st = "ok"; }
    std::vector<Raw> view; std::vector<int> reads;
    for (int i = 0; i < 3; i++)
    {
      view.push_back(sl[i] ? K::View(*sl[i]) : V("x"));
      if constexpr (IsRef) reads.push_back(sl[i] ? K::Read(*sl[i]) : -5);
    }
    const Raw X{"[" + J(IsRef ? std::string("r") : alt) + "," + J(x) + "]"};
    if constexpr (IsRef) c.Ev("op", op, "s", s, "d", d, "x", X, "st", st, "armed", false, "bad", g_bad, "view", view, "reads", reads, "objs", std::vector<int>{g_obj[0].v, g_obj[1].v, g_obj[2].v});
    else c.Ev("op", op, "s", s, "d", d, "x", X, "st", st, "armed", arm > 0 || fc || fm, "bad", g_bad, "live", g_live.size(), "view", view);
  }
  for (int i = 0; i < 3; i++) if (sl[i] && g_bad == 0) sl[i]->~M();
}
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    const std::string kind = t.Str();
    c.Head("kind", kind == "k" ? std::string("r") : kind);
    if (kind == "o") RunKind<Own<cru::OwningMaybe<Tr<2>>, Tr<2>, true, true>, true, false>(t, c);
    else if (kind == "c") RunKind<Own<cru::OwningMaybe<const Tr<2>>, const Tr<2>, true, false>, true, false>(t, c);
    else if (kind == "m") RunKind<Own<cru::OwningMaybe<Mo>, Mo, false, true>, false, false>(t, c);
    else if (kind == "u") RunKind<Uni, true, false>(t, c);
    else if (kind == "r") RunKind<Refs<Thing>, true, true>(t, c);
    else if (kind == "k") RunKind<Refs<const Thing>, true, true>(t, c);
    else _exit(2);
  });
}
