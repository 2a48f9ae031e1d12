// Random generators (C25): words are written as four limbs of 16 bits, lowest first.
#include "drv.hpp"
#include <memory>
#include <thread>
#include <common_robotics_utilities/simple_prngs.hpp>
using namespace drv;
namespace sp = common_robotics_utilities::simple_prngs;
static std::vector<int> W(uint64_t x) { return {static_cast<int>(x & 0xffff), static_cast<int>((x >> 16) & 0xffff), static_cast<int>((x >> 32) & 0xffff), static_cast<int>(x >> 48)}; }
template<typename G> static void Run(const char* kind, Tokens& t, Case& c)
{
  std::unique_ptr<G> g[3]; for (auto& x : g) x = std::make_unique<G>(0);
  for (int i = 1; i <= 3; i++) c.Ev("op", "make", "i", i, "kind", kind, "seed", W(0));
  while (t.Has())
  {
    const std::string op = t.Str(); const auto i = static_cast<size_t>(t.Int());
    if (op == "make" || op == "seed")
    {
      const uint64_t s = std::stoull(t.Str());
      if (op == "make") g[i - 1] = std::make_unique<G>(s); else g[i - 1]->seed(s);
      c.Ev("op", op, "i", i, "kind", kind, "seed", W(s));
    }
    else if (op == "far")
    {
      // more than 2^32 numbers, skipped at once and in two parts
      alarm(150); const uint64_t a = std::stoull(t.Str()), b = std::stoull(t.Str()); G one(*g[i - 1]), two(one); std::vector<std::vector<int>> v[2];
      std::thread other([&] { two.discard(a); two.discard(b); }); one.discard(a + b); other.join();
      for (int k = 0; k < 20; k++) { v[0].push_back(W(one())); v[1].push_back(W(two())); }
      c.Ev("op", op, "i", i, "at_once", v[0], "in_parts", v[1]);
    }
    else if (op == "skip") { const auto n = t.Int(); g[i - 1]->discard(static_cast<uint64_t>(n)); c.Ev("op", op, "i", i, "n", n); }
    else if (op == "draw") { const auto n = t.Int(); std::vector<std::vector<int>> v; for (long long k = 0; k < n; k++) v.push_back(W((*g[i - 1])())); c.Ev("op", op, "i", i, "v", v); }
    else if (op == "copy") { const auto j = static_cast<size_t>(t.Int()); if (t.Int()) *g[i - 1] = *g[j - 1]; else g[i - 1] = std::make_unique<G>(*g[j - 1]); c.Ev("op", op, "i", i, "j", j); }
    else c.Ev("op", "limits", "min", W(G::min()), "max", W(G::max()));
  }
}
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    const std::string k = t.Str();
    if (k == "split") Run<sp::SplitMix64PRNG>("split", t, c);
    else if (k == "plus") Run<sp::XorShift128PlusPRNG>("plus", t, c);
    else Run<sp::XorShift1024StarPRNG>("star", t, c);
  });
}
