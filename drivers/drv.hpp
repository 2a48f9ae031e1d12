// Common parts of the conformance drivers. A driver reads cases (one per line:
// "<id> <token> <token> ...") and writes for each one JSON line
// {"id":..., <header fields>, "ev":[{...},...]}.
// It contains no oracle: it executes the operations it is told and records what the
// real code answered. Only integers, strings, booleans and lists are recorded.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <utility>
#include <vector>

namespace drv
{
// ---- JSON -----------------------------------------------------------------
inline std::string J(const std::string& s)
{
  std::string o = "\"";
  for (const char ch : s)
  {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (static_cast<unsigned char>(ch) < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}
inline std::string J(const char* s) { return J(std::string(s)); }
inline std::string J(bool b) { return b ? "true" : "false"; }
// TLC integers are 32 bit; anything outside is recorded as a string.
inline std::string Jnum(long long v)
{
  if (v > 2000000000LL || v < -2000000000LL) return "2000000000";
  return std::to_string(v);
}
inline std::string J(int v) { return Jnum(v); }
inline std::string J(long v) { return Jnum(v); }
inline std::string J(long long v) { return Jnum(v); }
inline std::string J(unsigned v) { return Jnum(v); }
inline std::string J(unsigned long v) { return Jnum(v > 2000000000UL ? 2000000000L : static_cast<long>(v)); }
inline std::string J(unsigned char v) { return Jnum(v); }
inline std::string J(signed char v) { return Jnum(v); }
inline std::string J(short v) { return Jnum(v); }
inline std::string J(unsigned short v) { return Jnum(v); }
// A number kept in an own allocation, so that reading one that is no longer alive is seen by the sanitizer.
struct Held
{
  Held(long long v = 0) : p_(new long long(v)) {}
  Held(const Held& o) : p_(new long long(*o.p_)) {}
  Held(Held&& o) : p_(new long long(*o.p_)) { *o.p_ = -31337; }
  Held& operator=(const Held& o) { *p_ = *o.p_; return *this; }
  Held& operator=(Held&& o) { if (this != &o) { *p_ = *o.p_; *o.p_ = -31337; } return *this; }
  ~Held() { delete p_; p_ = nullptr; }
  operator long long() const { return *p_; }
private:
  long long* p_;
};
inline std::string J(const Held& h) { return J(static_cast<long long>(h)); }
struct Raw { std::string s; };
inline std::string J(const Raw& r) { return r.s; }
template<typename A, typename B> std::string J(const std::pair<A, B>& p);
template<typename T> std::string J(const std::vector<T>& v)
{
  std::string o = "[";
  for (size_t i = 0; i < v.size(); i++)
  {
    if (i) o += ",";
    const T x = v[i];
    o += J(x);
  }
  return o + "]";
}
template<typename T> std::string J(const std::set<T>& v) { return J(std::vector<T>(v.begin(), v.end())); }
template<typename A, typename B> std::string J(const std::pair<A, B>& p)
{ return "[" + J(p.first) + "," + J(p.second) + "]"; }

inline void Fields(std::string&) {}
template<typename V, typename... R> void Fields(std::string& o, const char* k, const V& v, const R&... r)
{
  if (!o.empty()) o += ",";
  o += J(k) + ":" + J(v);
  Fields(o, r...);
}
template<typename... R> Raw Obj(const R&... r) { std::string o; Fields(o, r...); return Raw{"{" + o + "}"}; }

// A double that is expected to be an integer multiple of 1/scale; anything else is
// recorded as the string "x<value>", infinities as a large number.
constexpr long long kInf = 1000000000LL;
inline Raw D(double v, double scale = 1.0)
{
  const double s = v * scale;
  if (std::isnan(v)) return Raw{"-1000000001"};
  if (std::isinf(v)) return Raw{v > 0 ? "1000000000" : "-1000000000"};
  if (s == std::floor(s) && std::fabs(s) < 1e9) return Raw{std::to_string(static_cast<long long>(s))};
  return Raw{"-1000000002"};  // not representable: never equal to a modelled value
}

// Distances, weights and costs are whole numbers in the specification; the real code gets them in a
// unit that differs from case to case, so that answers hold whatever their magnitude and to the last bit.
// Sums, minima and comparisons of k * Unit() are exact for k < 2^23.
inline unsigned& Hash() { static unsigned hash = 0; return hash; }
// A power of two that differs from case to case.
inline double Pow2() { static const int e[6] = {0, 0, -30, 35, -47, -100}; return std::ldexp(1.0, e[(Hash() >> 9) % 6]); }
inline double& Unit() { static double unit = 1.0; return unit; }
inline void SetUnit(const std::string& id)
{
  unsigned h = 2166136261u; for (const char ch : id) h = (h ^ static_cast<unsigned char>(ch)) * 16777619u;
  const double fine = 1.0 + std::ldexp(1.0, -29);
  const double units[4] = {1.0, fine, std::ldexp(fine, -60), std::ldexp(fine, 40)};
  Hash() = h; Unit() = units[(h >> 13) % 4];
}
inline double Fine(double v) { return v * Unit(); }
inline Raw DU(double v) { const double q = v / Unit(); return std::isfinite(v) && q * Unit() != v ? D(0.5) : D(q); }

// ---- tokens -----------------------------------------------------------------
class Tokens
{
public:
  explicit Tokens(const std::string& line) : in_(line) {}
  bool Has() { in_ >> std::ws; return in_.peek() != EOF; }
  std::string Str() { std::string s; if (!(in_ >> s)) { fprintf(stderr, "token expected\n"); _exit(2); } return s; }
  long long Int() { return std::stoll(Str()); }
  double Dbl() { return std::stod(Str()); }
  template<typename T = int> std::vector<T> List()
  { const long long n = Int(); std::vector<T> v; for (long long i = 0; i < n; i++) v.push_back(static_cast<T>(Int())); return v; }
private:
  std::istringstream in_;
};

// ---- events -----------------------------------------------------------------
class Case
{
public:
  std::string header;
  template<typename... R> void Head(const R&... r) { Fields(header, r...); }
  template<typename... R> void Ev(const R&... r)
  {
    Put(Obj(r...).s);
  }
  void Put(const std::string& s)
  {
    std::lock_guard<std::mutex> lock(m_);
    if (!ev_.empty()) ev_ += ",";
    ev_ += s;
  }
  std::string Line(const std::string& id) const
  { return "{\"id\":" + J(id) + (header.empty() ? "" : "," + header) + ",\"ev\":[" + ev_ + "]}"; }
private:
  std::mutex m_;
  std::string ev_;
};

// Calls f; returns "ok", or "err" when an exception derived from std::exception
// leaves it, or "unk" for any other.
template<typename F> std::string Try(const F& f)
{
  try { f(); return "ok"; }
  catch (const std::exception&) { return "err"; }
  catch (...) { return "unk"; }
}

inline void OnAlarm(int) { static const char m[] = "case timed out\n"; (void)!write(2, m, sizeof(m) - 1); _exit(86); }

inline int Main(int argc, char** argv, const std::function<void(Tokens&, Case&)>& run, unsigned case_seconds = 20)
{
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "w");
  if (!in || !out) return 2;
  signal(SIGALRM, OnAlarm);
  std::string line;
  while (std::getline(in, line))
  {
    const size_t sp = line.find(' ');
    const std::string id = line.substr(0, sp);
    Tokens t(sp == std::string::npos ? "" : line.substr(sp + 1));
    fprintf(stderr, "%s", "");
    Case c; SetUnit(id);
    alarm(case_seconds);
    run(t, c);
    alarm(0);
    const std::string s = c.Line(id) + "\n";
    fwrite(s.data(), 1, s.size(), out);
    fflush(out);
  }
  fclose(out);
  return 0;
}
}  // namespace drv
