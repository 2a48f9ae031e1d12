// Collection, value and bit helpers (C29).
#include "drv.hpp"
#include <atomic>
#include <deque>
#include <future>
#include <limits>
#include <list>
#include <memory>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <common_robotics_utilities/utility.hpp>
using namespace drv;
namespace ut = common_robotics_utilities::utility;
struct HashPair { int a; int b; bool operator==(const HashPair& o) const { return a == o.a && b == o.b; } };
CRU_MAKE_HASHABLE(HashPair, t.a, t.b)
using Ints = std::vector<int>; using Pairs = std::vector<std::pair<int, int>>;
static Pairs PairList(Tokens& t) { Pairs p; for (auto n = t.Int(); n > 0; n--) { const int k = static_cast<int>(t.Int()); p.push_back({k, static_cast<int>(t.Int())}); } return p; }
template<typename C> static C As(const Ints& v) { return C(v.begin(), v.end()); }
template<typename M> static M Map(const Pairs& p) { M m; for (const auto& x : p) m[x.first] = x.second; return m; }
template<typename C> static Raw List(const C& c) { return Raw{J(Ints(c.begin(), c.end()))}; }
static std::vector<bool> Bits(uint64_t w, int n) { std::vector<bool> b; for (int i = 0; i < n; i++) b.push_back((w >> i) & 1); return b; }
template<typename T> static void Bit(Case& c, T w, unsigned p, bool b)
{
  const T r = ut::SetBit<T>(w, p, b); const int n = static_cast<int>(sizeof(T)) * 8;
  c.Ev("op", "bits", "w", Bits(w, n), "p", p, "b", b, "r", Bits(r, n), "was", ut::GetBit<T>(w, p), "now", ut::GetBit<T>(r, p));
}
// 16-bit limbs of a value, highest first, in an order that agrees with its type's
template<typename T> static Ints Limbs(T x) { uint64_t u = static_cast<uint64_t>(static_cast<int64_t>(x)); if (std::is_signed<T>::value) u ^= 1ULL << 63; else u = static_cast<uint64_t>(x); Ints o; for (int s = 48; s >= 0; s -= 16) o.push_back(static_cast<int>((u >> s) & 0xffff)); return o; }
template<typename T> static void Wide(Case& c, T from, T to)
{
  const double us[] = {0.0, 0x1p-60, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0 - 0x1p-30, 1.0 - 0x1p-53}; std::vector<Ints> all;
  using U = uint64_t; const U span = static_cast<U>(to) - static_cast<U>(from);
  // half way there is a value of its own exactly when the number of values is even
  const T mid = static_cast<T>(static_cast<U>(from) + span / 2 + 1);
  for (int k = 0; k < 9; k++)
  {
    T r{}; const std::string st = Try([&] { r = ut::GetUniformRandomInRange<T>([&] { return us[k]; }, from, to); });
    c.Ev("op", "wide", "from", Limbs(from), "to", Limbs(to), "u", k, "full", span < (1ULL << 52), "half", span % 2 == 1 && span < (1ULL << 52), "mid", Limbs(mid), "st", st, "r", Limbs(r));
    all.push_back(Limbs(r));
  }
  c.Ev("op", "wides", "r", all);
}
template<typename T> static void Narrow(Case& c, const std::string& op, long long a, long long b, long long k, long long m)
{
  long long draws = 0; const double u = std::ldexp(static_cast<double>(k), -static_cast<int>(m)); const auto draw = [&] { draws++; return u; }; T r{};
  if (op == "index") { const std::string st = Try([&] { r = ut::GetUniformRandomIndex<T>(draw, static_cast<T>(a)); }); c.Ev("op", op, "n", a, "k", k, "m", m, "st", st, "r", static_cast<long long>(r), "draws", draws); }
  else { const std::string st = Try([&] { r = ut::GetUniformRandomInRange<T>(draw, static_cast<T>(a), static_cast<T>(b)); }); c.Ev("op", op, "from", a, "to", b, "k", k, "m", m, "st", st, "r", static_cast<long long>(r), "draws", draws); }
}
template<typename T> static void Value(Case& c, const std::string& op, Tokens& t)
{
  const auto x = t.Int(), lo = t.Int(), mid = op == "spread" ? t.Int() : 0, hi = t.Int(); int logs = 0; T r{}, r2{};
  const auto log = [&](const std::string&) { logs++; }; const T X = static_cast<T>(x), L = static_cast<T>(lo), M = static_cast<T>(mid), H = static_cast<T>(hi);
  const std::string st = Try([&] {
    if (op == "clamp") { r = ut::ClampValueAndLog<T>(X, L, H, log); r2 = ut::ClampValue<T>(X, L, H); }
    else { r = ut::SpreadValueAndLog<T>(X, L, M, H, log); r2 = ut::SpreadValue<T>(X, L, M, H); } });
  c.Ev("op", op, "x", x, "lo", lo, "mid", mid, "hi", hi, "st", st, "r", D(static_cast<double>(r)), "r2", D(static_cast<double>(r2)), "logs", logs);
}
static std::string H64(size_t h) { char b[24]; snprintf(b, sizeof(b), "%016zx", h); return b; }
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    std::promise<int> promise; std::future<int> future; std::thread worker; std::atomic<bool> go(false);
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "subset" || op == "equal")
      {
        const auto kind = t.Int(); const Ints s = t.List(), u = t.List(); bool r = false; const bool sub = op == "subset";
        if (kind == 0) r = sub ? ut::IsSubset<int>(s, u) : ut::CollectionsEqual<int>(s, u);
        else if (kind == 1) { using C = std::list<int>; using E = std::deque<int>; r = sub ? ut::IsSubset<int, C, E>(As<C>(s), As<E>(u)) : ut::CollectionsEqual<int, C, E>(As<C>(s), As<E>(u)); }
        else { using C = std::multiset<int>; r = sub ? ut::IsSubset<int, Ints, C>(s, As<C>(u)) : ut::CollectionsEqual<int, Ints, C>(s, As<C>(u)); }
        c.Ev("op", op, "s", s, "t", u, "r", r);
      }
      else if (op == "get")
      {
        const auto kind = t.Int(); const Pairs m = PairList(t); const int k = static_cast<int>(t.Int()), d = static_cast<int>(t.Int()); using U = std::unordered_map<int, int>;
        const int r = kind ? ut::RetrieveOrDefault<int, int, U>(Map<U>(m), k, d) : ut::RetrieveOrDefault<int, int>(Map<std::map<int, int>>(m), k, d);
        c.Ev("op", op, "m", m, "k", k, "d", d, "r", r);
      }
      else if (op == "keys" || op == "pairs" || op == "make")
      {
        const auto kind = t.Int(); const Pairs m = PairList(t); using U = std::unordered_map<int, int>; using M = std::map<int, int>;
        if (op == "keys") c.Ev("op", op, "m", m, "sorted", !kind, "r", kind ? ut::GetKeysFromMapLike<int, int, U>(Map<U>(m)) : ut::GetKeysFromMapLike<int, int>(Map<M>(m)));
        else if (op == "pairs") c.Ev("op", op, "m", m, "sorted", !kind, "r", kind ? ut::GetKeysAndValues<int, int, U>(Map<U>(m)) : ut::GetKeysAndValues<int, int>(Map<M>(m)));
        else if (kind) { const U r = ut::MakeFromKeysAndValues<int, int, U>(m); c.Ev("op", op, "m", m, "r", Pairs(r.begin(), r.end())); }
        else { const M r = ut::MakeFromKeysAndValues<int, int>(m); c.Ev("op", op, "m", m, "r", Pairs(r.begin(), r.end())); }
      }
      else if (op == "zip")
      {
        const auto kind = t.Int(); const Ints k = t.List(), v = t.List(); Pairs r;
        const std::string st = Try([&] {
          if (kind) { using U = std::unordered_map<int, int>; const U m = ut::MakeFromKeysAndValues<int, int, U, std::deque<int>, Ints>(As<std::deque<int>>(k), v); r.assign(m.begin(), m.end()); }
          else { const auto m = ut::MakeFromKeysAndValues<int, int>(k, v); r.assign(m.begin(), m.end()); } });
        c.Ev("op", op, "k", k, "v", v, "st", st, "r", r);
      }
      else if (op == "set")
      {
        const auto kind = t.Int(); const Ints s = t.List(); using U = std::unordered_set<int>;
        c.Ev("op", op, "s", s, "sorted", !kind, "r", kind ? ut::GetKeysFromSetLike<int, U>(As<U>(s)) : ut::GetKeysFromSetLike<int>(As<std::set<int>>(s)));
      }
      else if (op == "clamp" || op == "spread")
      {
        const std::string type = t.Str();
        if (type == "double") Value<double>(c, op, t); else if (type == "int") Value<int>(c, op, t); else if (type == "float") Value<float>(c, op, t); else Value<uint8_t>(c, op, t);
      }
      else if (op == "bits")
      {
        const auto n = t.Int(); const uint64_t w = std::stoull(t.Str()); const unsigned p = static_cast<unsigned>(t.Int()); const bool b = t.Int() != 0;
        if (n == 8) Bit<uint8_t>(c, static_cast<uint8_t>(w), p, b); else if (n == 16) Bit<uint16_t>(c, static_cast<uint16_t>(w), p, b);
        else if (n == 32) Bit<uint32_t>(c, static_cast<uint32_t>(w), p, b); else Bit<uint64_t>(c, w, p, b);
      }
      else if (op == "find")
      {
        // strings of the letters 0 and 1, given as lists
        std::vector<std::string> s; std::vector<Ints> lists; const auto str = [](const Ints& v) { std::string x; for (int k : v) x += static_cast<char>('a' + k); return x; };
        const auto kind = t.Int(); for (auto n = t.Int(); n > 0; n--) { lists.push_back(t.List()); s.push_back(str(lists.back())); }
        const Ints u = t.List(); using L = std::list<std::string>;
        c.Ev("op", op, "s", lists, "t", u, "r", kind ? ut::CheckAllStringsForSubstring<L>(L(s.begin(), s.end()), str(u)) : ut::CheckAllStringsForSubstring(s, str(u)));
      }
      else if (op == "index" || op == "range")
      {
        const std::string type = t.Str(); const auto a = t.Int(), b = op == "range" ? t.Int() : 0, k = t.Int(), m = t.Int();
        if (type == "i8") Narrow<int8_t>(c, op, a, b, k, m); else if (type == "u8") Narrow<uint8_t>(c, op, a, b, k, m); else if (type == "i32") Narrow<int32_t>(c, op, a, b, k, m);
        else if (type == "i64") Narrow<int64_t>(c, op, a, b, k, m); else Narrow<size_t>(c, op, a, b, k, m);
      }
      else if (op == "wide")
      {
        const std::string type = t.Str(), a = t.Str(), b = t.Str();
        if (type == "i32") Wide<int32_t>(c, std::stoi(a), std::stoi(b)); else if (type == "u32") Wide<uint32_t>(c, static_cast<uint32_t>(std::stoul(a)), static_cast<uint32_t>(std::stoul(b)));
        else if (type == "i64") Wide<int64_t>(c, std::stoll(a), std::stoll(b)); else if (type == "i16") Wide<int16_t>(c, static_cast<int16_t>(std::stoi(a)), static_cast<int16_t>(std::stoi(b))); else Wide<uint64_t>(c, std::stoull(a), std::stoull(b));
      }
      else if (op == "align")
      {
        const auto at = t.Int(), a = t.Int(); std::vector<char> room(3 * 8192); const auto base = (reinterpret_cast<uintptr_t>(room.data()) + 8191) / 8192 * 8192;
        const char& item = *reinterpret_cast<char*>(base + static_cast<uintptr_t>(at)); int logs = 0;
        const bool r = ut::CheckAlignment(item, static_cast<uint64_t>(a), [&](const std::string&) { logs++; });
        c.Ev("op", op, "at", at, "a", a, "r", r, "r2", ut::CheckAlignment(item, static_cast<uint64_t>(a)), "req", Try([&] { ut::RequireAlignment(item, static_cast<uint64_t>(a)); }), "logs", logs);
      }
      else if (op == "hash")
      {
        const auto seed = static_cast<size_t>(t.Int()); const Ints v = t.List(); size_t once = seed, steps = seed, again = seed;
        const auto all = [&](size_t& h) {
          if (v.empty()) ut::hash_combine(h); else if (v.size() == 1) ut::hash_combine(h, v[0]); else if (v.size() == 2) ut::hash_combine(h, v[0], v[1]);
          else ut::hash_combine(h, v[0], v[1], v[2]); };
        all(once); all(again); for (size_t k = 0; k < v.size() && k < 3; k++) ut::hash_combine(steps, v[k]);
        c.Ev("op", op, "once", H64(once), "steps", H64(steps), "again", H64(again));
      }
      else if (op == "hashes")
      {
        const int n = static_cast<int>(t.Int()); std::vector<std::string> r;
        for (int a = 0; a < n; a++) { size_t h = 0; ut::hash_combine(h, a); r.push_back(H64(h)); for (int b = 0; b < n; b++) { size_t g = 0; ut::hash_combine(g, a, b); r.push_back(H64(g)); } }
        c.Ev("op", op, "r", r);
      }
      else if (op == "hashed")
      {
        const int a = static_cast<int>(t.Int()), b = static_cast<int>(t.Int()); size_t h = 0; ut::hash_combine(h, a, b);
        std::unordered_set<HashPair> s; for (int k = 0; k < 5; k++) s.insert(HashPair{a, b + k % 2});
        c.Ev("op", op, "same", std::hash<HashPair>()(HashPair{a, b}) == h && s.size() == 2 && s.count(HashPair{a, b}) == 1);
      }
      // a future's history
      else if (op == "fnew") { promise = std::promise<int>(); future = promise.get_future(); c.Ev("op", op); }
      else if (op == "fset") { const auto how = t.Int(); if (how == 0) promise.set_value(1); else if (how == 1) promise.set_exception(std::make_exception_ptr(std::runtime_error("x"))); else promise = std::promise<int>(); c.Ev("op", op, "how", how); }
      else if (op == "flater") { future = std::async(std::launch::deferred, [] { return 1; }); c.Ev("op", op); }
      else if (op == "fdone") { future = std::async(std::launch::async, [] { return 1; }); future.wait(); c.Ev("op", op); }
      else { const bool r = ut::IsFutureReady(future); c.Ev("op", "fready", "r", r); }
    }
  });
}
