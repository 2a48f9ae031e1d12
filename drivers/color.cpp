// Colours (C34). Floats are given in 64ths, bytes as they are; channels are recorded in
// units of 1/16320 = 1/(255*64).
#include "drv.hpp"
#include <common_robotics_utilities/color_builder.hpp>
using namespace drv;
namespace cb = common_robotics_utilities::color_builder;
struct Plain { float r = 9, g = 9, b = 9, a = 9; };
struct Wide { double r = 9, g = 9, b = 9, a = 9; };
static Raw U(double v) { const double u = v * 16320.0, r = std::round(u); if (!(std::fabs(u - r) < 0.02)) return Raw{"-1000000002"}; return Raw{std::to_string(static_cast<long long>(r))}; }
template<typename C> static std::vector<Raw> Ch(const C& c) { return {U(c.r), U(c.g), U(c.b), U(c.a)}; }
static float F(long long j) { return static_cast<float>(j) / 64.0f; }
static uint8_t B(long long k) { return static_cast<uint8_t>(k); }
template<typename C> static C Make(const std::vector<long long>& a, long long h)
{
  if (h == 0) return a.size() == 4 ? cb::MakeFromFloatColors<C>(F(a[0]), F(a[1]), F(a[2]), F(a[3])) : cb::MakeFromFloatColors<C>(F(a[0]), F(a[1]), F(a[2]));
  if (h == 4) return a.size() == 4 ? cb::MakeFromHexColors<C>(B(a[0]), B(a[1]), B(a[2]), B(a[3])) : cb::MakeFromHexColors<C>(B(a[0]), B(a[1]), B(a[2]));
  return a.size() == 4 ? cb::MakeFromMixedColors<C>(B(a[0]), B(a[1]), B(a[2]), F(a[3])) : cb::MakeFromMixedColors<C>(B(a[0]), B(a[1]), B(a[2]));
}
template<typename C> static void Warm(Case& c, long long k, long long n, long long lo, long long shift)
{
  const double unit = std::ldexp(1.0, static_cast<int>(shift)), low = static_cast<double>(lo) * unit, high = low + static_cast<double>(n) * unit, at = low + static_cast<double>(k) * unit;
  c.Ev("op", "warm", "k", k, "n", n, "lo", lo, "shift", shift, "v", Ch(cb::InterpolateHotToCold<C>(at, low, high)));
  if (lo == 0 && shift < 0 && (1LL << -shift) == n) c.Ev("op", "warm", "k", k, "n", n, "lo", lo, "shift", shift, "v", Ch(cb::InterpolateHotToCold<C>(at)));
}
int main(int argc, char** argv)
{
  return Main(argc, argv, [](Tokens& t, Case& c) {
    cb::RGBAColor x;
    const auto show = [&](const std::string& op, const Raw& extra) {
      c.Put("{\"op\":" + J(op) + (extra.s.empty() ? "" : "," + extra.s) + ",\"v\":" + J(Ch(x)) + ",\"get\":" + J(std::vector<Raw>{U(x.R()), U(x.G()), U(x.B()), U(x.A())}) + ",\"hex\":" + J(std::vector<int>{x.GetRHex(), x.GetGHex(), x.GetBHex(), x.GetAHex()}) + "}"); };
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "zero") { x = cb::RGBAColor(); show(op, Raw{""}); }
      else if (op == "make")
      {
        // h arguments are bytes, the others floats; how: constructor, or function for a kind of colour
        const auto how = t.Int(), h = t.Int(); const auto a = t.List<long long>(); const auto n = a.size();
        if (how == 0)
        {
          if (h == 0) x = n == 4 ? cb::RGBAColor(F(a[0]), F(a[1]), F(a[2]), F(a[3])) : cb::RGBAColor(F(a[0]), F(a[1]), F(a[2]));
          else if (n == 3) x = cb::RGBAColor(B(a[0]), B(a[1]), B(a[2]));
          else if (h == 4) x = cb::RGBAColor(B(a[0]), B(a[1]), B(a[2]), B(a[3])); else x = cb::RGBAColor(B(a[0]), B(a[1]), B(a[2]), F(a[3]));
        }
        else if (how == 1) x = Make<cb::RGBAColor>(a, h); else if (how == 2) x = cb::ConvertColor<Plain, cb::RGBAColor>(Make<Plain>(a, h)); else { const Wide w = Make<Wide>(a, h); x.r = static_cast<float>(w.r); x.g = static_cast<float>(w.g); x.b = static_cast<float>(w.b); x.a = static_cast<float>(w.a); }
        show(op, Raw{"\"h\":" + J(h) + ",\"a\":" + J(a)});
      }
      else if (op == "set") { const auto i = t.Int(), j = t.Int(); const float f = j > 1000000 ? INFINITY : j < -1000000 ? -INFINITY : F(j); if (i == 1) x.SetR(f); else if (i == 2) x.SetG(f); else if (i == 3) x.SetB(f); else x.SetA(f); show(op, Raw{"\"i\":" + J(i) + ",\"x\":" + J(j)}); }
      else if (op == "sethex") { const auto i = t.Int(), k = t.Int(); if (i == 1) x.SetRHex(B(k)); else if (i == 2) x.SetGHex(B(k)); else if (i == 3) x.SetBHex(B(k)); else x.SetAHex(B(k)); show(op, Raw{"\"i\":" + J(i) + ",\"x\":" + J(k)}); }
      else if (op == "conv") { const auto a = t.List<long long>(); Plain p; p.r = F(a[0]); p.g = F(a[1]); p.b = F(a[2]); p.a = F(a[3]); c.Ev("op", op, "a", a, "v", Ch(cb::ConvertColor<Plain, cb::RGBAColor>(p))); c.Ev("op", op, "a", a, "v", Ch(cb::ConvertColor<Plain, Wide>(p))); }
      else if (op == "equal")
      {
        const auto a = t.List<long long>(), b = t.List<long long>(); const auto tol = t.Int(); Plain p; p.r = F(a[0]); p.g = F(a[1]); p.b = F(a[2]); p.a = F(a[3]); Wide w; w.r = F(b[0]); w.g = F(b[1]); w.b = F(b[2]); w.a = F(b[3]);
        c.Ev("op", op, "a", a, "b", b, "tol", tol, "r", cb::ColorsEqual(p, w, F(tol))); c.Ev("op", op, "a", b, "b", a, "tol", tol, "r", cb::ColorsEqual(w, p, F(tol))); if (tol == 0) c.Ev("op", op, "a", a, "b", b, "tol", tol, "r", cb::ColorsEqual(p, w));
      }
      else if (op == "warm") { const auto k = t.Int(), n = t.Int(), lo = t.Int(), shift = t.Int(); Warm<cb::RGBAColor>(c, k, n, lo, shift); Warm<Wide>(c, k, n, lo, shift); }
      else if (op == "unique")
      {
        const auto j = t.Int(); std::vector<std::vector<Raw>> v, w;
        for (uint32_t k = 0; k < 24; k++) { v.push_back(Ch(cb::LookupUniqueColor<cb::RGBAColor>(k, F(j)))); w.push_back(Ch(cb::LookupUniqueColor<Plain>(k, F(j)))); }
        for (const uint32_t k : {255u, 256u, 257u, 65536u + 3u, 0x7fffffffu, 0x80000001u, 0xffffffffu}) { v.push_back(Ch(cb::LookupUniqueColor<cb::RGBAColor>(k, F(j)))); w.push_back(Ch(cb::LookupUniqueColor<Plain>(k, F(j)))); }
        c.Ev("op", op, "alpha", j, "v", v); c.Ev("op", op, "alpha", j, "v", w);
        if (j == 64) { std::vector<std::vector<Raw>> d; for (uint32_t k = 0; k < 24; k++) d.push_back(Ch(cb::LookupUniqueColor<cb::RGBAColor>(k))); c.Ev("op", op, "alpha", j, "v", d); }
      }
      else if (op == "bytes") { std::vector<Raw> v; std::vector<int> b; for (int k = 0; k < 256; k++) { v.push_back(U(cb::ColorChannelFromHex(B(k)))); b.push_back(cb::ColorChannelToHex(cb::ColorChannelFromHex(B(k)))); } c.Ev("op", op, "v", v, "b", b); }
    }
  });
}
