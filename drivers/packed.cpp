// Base64, zlib and compressed files (C26). Files live in a directory of this run's own.
#include "drv.hpp"
#include <fcntl.h>
#include <random>
#include <sys/resource.h>
#include <sys/stat.h>
#include <zlib.h>
#include <common_robotics_utilities/base64_helpers.hpp>
#include <common_robotics_utilities/zlib_helpers.hpp>
using namespace drv;
namespace b64 = common_robotics_utilities::base64_helpers;
namespace zh = common_robotics_utilities::zlib_helpers;
using Bytes = std::vector<uint8_t>;
static std::string dir;
static Raw V(const Bytes& b)
{
  if (b.size() <= 40) return Raw{J(b)};
  uint32_t h = 2166136261u, g = 5381; for (const uint8_t x : b) { h = (h ^ x) * 16777619u; g = g * 33 + x; }
  return Raw{J(std::vector<long long>{-1, static_cast<long long>(b.size()), h >> 2, g >> 2})};
}
static Bytes Make(Tokens& t)  // "list n ..." or "gen kind n seed"
{
  const std::string k = t.Str(); Bytes b;
  if (k == "list") { for (const int x : t.List<int>()) b.push_back(static_cast<uint8_t>(x)); return b; }
  const auto kind = t.Int(), n = t.Int(), seed = t.Int(); std::mt19937 g(static_cast<unsigned>(seed));
  b.reserve(static_cast<size_t>(n));
  for (long long i = 0; i < n; i++)
    b.push_back(kind == 0 ? static_cast<uint8_t>(g()) : kind == 1 ? static_cast<uint8_t>(seed) : kind == 2 ? static_cast<uint8_t>((i / 7) ^ (i >> 9)) : static_cast<uint8_t>(g() % 3 ? 65 : g()));
  return b;
}
static std::string File(long long i) { return dir + "/f" + std::to_string(i); }
static Bytes Slurp(const std::string& p) { std::ifstream in(p, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
static void Dump(const std::string& p, const Bytes& b) { std::ofstream o(p, std::ios::binary | std::ios::trunc); o.write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size())); }
static Bytes Codes(const std::string& s) { return Bytes(s.begin(), s.end()); }
int main(int argc, char** argv)
{
  if (argc < 3) return 2;
  dir = std::string(argv[2]) + ".d"; mkdir(dir.c_str(), 0700); mkdir((dir + "/sub").c_str(), 0700); signal(SIGXFSZ, SIG_IGN);
  const auto clear = [] { for (int i = 1; i <= 3; i++) unlink(File(i).c_str()); unlink((dir + "/sub/x").c_str()); };
  const int rc = Main(argc, argv, [&](Tokens& t, Case& c) {
    clear();
    while (t.Has())
    {
      const std::string op = t.Str();
      if (op == "enc")
      {
        const Bytes b = Make(t); std::string s; Bytes back;
        const std::string st = Try([&] { s = b64::Encode(b); back = b64::Decode(s); });
        c.Ev("op", op, "bytes", b, "st", st, "text", Codes(s), "back", back);
      }
      else if (op == "dec")
      {
        const Bytes b = Make(t); const Bytes text = Make(t); Bytes back;
        const std::string st = Try([&] { back = b64::Decode(std::string(text.begin(), text.end())); });
        c.Ev("op", op, "bytes", b, "text", text, "st", st, "back", back);
      }
      else if (op == "pack")
      {
        const Bytes b = Make(t); Bytes z, back, peer;
        const std::string st = Try([&] { z = zh::CompressBytes(b); back = zh::DecompressBytes(z); });
        peer.resize(b.size() + 64); uLongf n = peer.size();
        const int r = z.empty() ? -1 : uncompress(peer.data(), &n, z.data(), z.size()); if (r == Z_OK) peer.resize(n); else peer.clear();
        if (r != Z_OK) peer.push_back(1), peer.insert(peer.begin(), b.begin(), b.end());
        c.Ev("op", op, "v", V(b), "st", st, "back", V(back), "peer", V(peer));
      }
      else if (op == "peerpack")
      {
        const Bytes b = Make(t); const auto level = static_cast<int>(t.Int()); Bytes z(compressBound(b.size()) + 16), back; uLongf n = z.size();
        if (compress2(z.data(), &n, b.data(), b.size(), level) != Z_OK) _exit(2);
        z.resize(n);
        const std::string st = Try([&] { back = zh::DecompressBytes(z); });
        c.Ev("op", op, "v", V(b), "st", st, "back", V(back));
      }
      else if (op == "cut")  // every shorter piece (step apart) of the compressed string
      {
        const Bytes b = Make(t); const auto step = static_cast<size_t>(t.Int()); Bytes z; std::vector<std::string> sts;
        const std::string st = Try([&] { z = zh::CompressBytes(b); });
        for (size_t n = 0; n < z.size(); n += (n + 6 >= z.size() ? 1 : step)) sts.push_back(Try([&] { zh::DecompressBytes(Bytes(z.begin(), z.begin() + static_cast<long>(n))); }));
        c.Ev("op", op, "v", V(b), "sts", sts);
      }
      else if (op == "spoil")
      {
        const Bytes b = Make(t); const auto pos = static_cast<size_t>(t.Int()), val = static_cast<size_t>(t.Int()); Bytes back;
        Bytes z = zh::CompressBytes(b); z[pos % z.size()] ^= static_cast<uint8_t>(val % 255 + 1);
        const std::string st = Try([&] { back = zh::DecompressBytes(z); });
        c.Ev("op", op, "v", V(b), "st", st, "back", V(back));
      }
      else if (op == "write") { const auto i = t.Int(); const Bytes b = Make(t); const std::string st = Try([&] { zh::CompressAndWriteToFile(b, File(i)); }); c.Ev("op", op, "i", i, "can", true, "v", V(b), "st", st); }
      else if (op == "writeno")
      {
        const auto how = t.Int(); const auto i = t.Int(); const Bytes b = Make(t);
        const size_t packed = zh::CompressBytes(b).size(); bool can = false; std::string st;
        if (how == 3)  // no room for the last byte
        {
          struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = packed - 1; setrlimit(RLIMIT_FSIZE, &lim);
          st = Try([&] { zh::CompressAndWriteToFile(b, File(i)); });
          setrlimit(RLIMIT_FSIZE, &old);
        }
        else st = Try([&] { zh::CompressAndWriteToFile(b, how == 0 ? dir + "/none/x" : how == 1 ? dir + "/sub" : how == 2 ? std::string("/dev/full") : std::string()); });
        c.Ev("op", "write", "i", how == 3 ? i : 0, "can", can, "v", V(b), "st", st, "how", how);
      }
      else if (op == "load") { const auto i = t.Int(); Bytes back; const std::string st = Try([&] { back = zh::LoadFromFileAndDecompress(File(i)); }); c.Ev("op", op, "i", i, "st", st, "back", V(back)); }
      else if (op == "loadno") { const auto how = t.Int(); const std::string st = Try([&] { zh::LoadFromFileAndDecompress(how == 0 ? dir + "/none" : how == 1 ? dir + "/sub" : how == 2 ? std::string("/dev/null") : std::string()); }); c.Ev("op", op, "st", st); }
      else if (op == "remove") { const auto i = t.Int(); unlink(File(i).c_str()); c.Ev("op", op, "i", i); }
      else if (op == "cutfile") { const auto i = t.Int(); const auto k = t.Int(); Bytes z = Slurp(File(i)); if (!z.empty()) { z.resize(z.size() - 1 - static_cast<size_t>(k) % z.size()); Dump(File(i), z); } c.Ev("op", op, "i", i); }
      else if (op == "spoilfile") { const auto i = t.Int(); const auto k = static_cast<size_t>(t.Int()), v = static_cast<size_t>(t.Int()); Bytes z = Slurp(File(i)); if (!z.empty()) { z[k % z.size()] ^= static_cast<uint8_t>(v % 255 + 1); Dump(File(i), z); } c.Ev("op", op, "i", i); }
      else _exit(2);
    }
  }, 40);
  clear(); rmdir((dir + "/sub").c_str()); rmdir(dir.c_str());
  return rc;
}
