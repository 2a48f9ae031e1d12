// Shortening and resampling of paths (C21). Points with integer coordinates; interpolated
// ones are rounded. Which connections are valid is told per case: all pairs among listed
// ones, or by a hash of the points.
#include "drv.hpp"
#include <common_robotics_utilities/path_processing.hpp>
using namespace drv;
namespace pp = common_robotics_utilities::path_processing;
using P = std::pair<long long, long long>;
using Path = std::vector<P>;
struct World
{
  int percent = 0; uint64_t seed = 0; bool listed = false, near_end = false; P from, goal; std::set<std::pair<P, P>> valid;
  std::vector<Raw> checks; std::set<std::pair<P, P>> seen;
  bool Ask(const P& a, const P& b)
  {
    bool r;
    if (near_end) r = b != goal || a == from;  // only the very last stretch is blocked
    else if (listed) r = valid.count({a, b}) > 0;
    else
    {
      uint64_t h = seed * 0x9e3779b97f4a7c15ULL;
      for (long long x : {a.first, a.second, b.first, b.second}) { h ^= static_cast<uint64_t>(x); h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 29; }
      r = static_cast<int>(h % 100) < percent;
    }
    checks.push_back(Raw{"[" + J(a) + "," + J(b) + "," + J(r) + "]"});
    return r;
  }
};
static Path GetPath(Tokens& t) { const auto n = t.Int(); Path p; for (long long i = 0; i < n; i++) { const auto x = t.Int(), y = t.Int(); p.emplace_back(x, y); } return p; }
static double Dist(const P& a, const P& b) { return Fine(static_cast<double>(std::llabs(a.first - b.first) + std::llabs(a.second - b.second))); }
static P Mid(const P& a, const P& b, double r) { return P(a.first + std::llround(static_cast<double>(b.first - a.first) * r), a.second + std::llround(static_cast<double>(b.second - a.second) * r)); }
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    World w;
    const std::function<bool(const P&, const P&)> ask = [&](const P& a, const P& b) { return w.Ask(a, b); };
    const std::function<double(const P&, const P&)> dist = Dist;
    const std::function<P(const P&, const P&, const double)> mid = Mid;
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "world")
      {
        const auto kind = t.Int(); w.listed = kind == 1; w.near_end = kind == 2; w.valid.clear();
        if (w.near_end) { const Path e = GetPath(t); w.from = e[0]; w.goal = e[1]; continue; }
        if (w.listed) { const auto n = t.Int(); for (long long i = 0; i < n; i++) { const Path e = GetPath(t); w.valid.insert({e[0], e[1]}); } }
        else { w.percent = static_cast<int>(t.Int()); w.seed = static_cast<uint64_t>(t.Int()); }
        continue;
      }
      const Path path = GetPath(t); Path out; w.checks.clear();
      if (op == "free")
      {
        double share = -1;
        const std::string st = Try([&] { share = pp::ComputePercentCollisionFree<P>(path, ask); });
        const long long of = path.size() > 1 ? static_cast<long long>(path.size()) - 1 : 1;
        c.Ev("op", op, "path", path, "st", st, "of", of, "share", D(share * static_cast<double>(of) + (std::fabs(share * static_cast<double>(of) - std::round(share * static_cast<double>(of))) < 1e-9 ? std::round(share * static_cast<double>(of)) - share * static_cast<double>(of) : 0.0)), "checks", w.checks);
        continue;
      }
      if (op == "long")
      {
        // many states: only their number, ends and steps are recorded
        const long long rs = t.Int(); long long lo = 1LL << 40, hi = -1, off = 0;
        const std::string st = Try([&] { out = pp::ResamplePath<P>(path, Fine(static_cast<double>(rs)), dist, mid); });
        for (size_t i = 1; i < out.size(); i++)
        { const long long d = std::llabs(out[i].first - out[i - 1].first) + std::llabs(out[i].second - out[i - 1].second); lo = std::min(lo, d); hi = std::max(hi, d); }
        for (const P& q : out) if (q.second != 0) off++;
        size_t k = 0; for (const P& q : out) if (k < path.size() && q == path[k]) { k++; while (k < path.size() && path[k] == path[k - 1]) k++; }
        c.Ev("op", op, "path", path, "rs", rs, "st", st, "n", out.size(), "lo", lo, "hi", hi, "off", off, "met", k, "first", out.empty() ? P(-1, -1) : out.front(), "last", out.empty() ? P(-1, -1) : out.back());
        continue;
      }
      if (op == "resample")
      {
        const double rs = t.Dbl();
        const std::string st = Try([&] { out = pp::ResamplePath<P>(path, Fine(rs), dist, mid); });
        c.Ev("op", op, "path", path, "rs", static_cast<long long>(rs), "st", st, "out", out);
        continue;
      }
      const auto bt = static_cast<uint32_t>(t.Int()); const double rs = t.Dbl(); const bool marg = t.Int() != 0;
      if (op == "att")
      {
        const auto s = static_cast<size_t>(t.Int()), e = static_cast<size_t>(t.Int());
        const std::string st = Try([&] { out = pp::AttemptShortcut<P>(path, s, e, bt, Fine(rs), marg, ask, dist, mid); });
        c.Ev("op", op, "path", path, "bt", bt, "rs", static_cast<long long>(rs), "marg", marg, "s", s, "e", e, "st", st, "out", out, "checks", w.checks);
      }
      else if (op == "smooth")
      {
        const auto iters = static_cast<uint32_t>(t.Int()), fails = static_cast<uint32_t>(t.Int()); const auto m = t.Int(); const auto us = t.List<int>();
        size_t draws = 0;
        const auto uni = [&] { return static_cast<double>(us[draws++ % us.size()]) / 1024.0; };
        const std::string st = Try([&] { out = pp::ShortcutSmoothPath<P>(path, iters, fails, bt, static_cast<double>(m) / 16.0, Fine(rs), marg, ask, dist, mid, uni); });
        c.Ev("op", op, "path", path, "bt", bt, "rs", static_cast<long long>(rs), "marg", marg, "iters", iters, "fails", fails, "m", m, "us", us, "draws", draws, "st", st, "out", out, "checks", w.checks);
      }
      else _exit(2);
    }
  });
}
