// Shared by the harnesses: deterministic PRNG, reporting, encoding.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <map>
#include <string>
#include <vector>
#include <mutex>
#include <unordered_set>
#include <functional>

namespace vk {

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(int percent) { return below(100) < (uint64_t)percent; }
  template<typename C> auto const& pick(C const& c) { return c[below(c.size())]; }
};

inline std::string esc(std::string const& s, size_t max = 400)
{
  std::string r;
  char b[8];
  for (unsigned char c : s)
  {
    if (c >= 32 && c < 127 && c != '\\')
      r += (char)c;
    else
    {
      std::snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
    if (r.size() > max) { r += "..."; break; }
  }
  return r;
}

struct Report
{
  std::mutex m;
  uint64_t evaluations = 0;
  std::unordered_set<size_t> distinct;
  int samples = 0;
  std::set<std::string> failed;
  void fail(std::string const& key, std::string const& detail)
  {
    std::lock_guard<std::mutex> l(m);
    if (!failed.insert(key).second)
      return;
    std::printf("FAIL %s\t%s\n", key.c_str(), detail.c_str());
    std::fflush(stdout);
  }
  void eval(std::string const& what, bool nontrivial = true)
  {
    ++evaluations;
    if (nontrivial)
      distinct.insert(std::hash<std::string>()(what));
  }
  void sample(std::string const& s)
  {
    if (samples++ < 4)
      std::printf("SAMPLE %s\n", esc(s).c_str());
  }
  std::map<std::string, long long> stats;
  void stat(char const* k, long long v) { std::lock_guard<std::mutex> l(m); stats[k] += v; }
  int done()
  {
    stat("evaluations", evaluations);
    stat("distinct", distinct.size());
    for (auto& kv : stats) std::printf("STAT %s %lld\n", kv.first.c_str(), kv.second);
    std::printf("DONE\n");
    std::fflush(stdout);
    return 0;
  }
};

inline Report report;

inline uint64_t arg_u64(int argc, char** argv, int i, uint64_t dflt) { return argc > i ? std::strtoull(argv[i], nullptr, 10) : dflt; }

// A heap copy of exactly n bytes, so that AddressSanitizer sees any access outside it.
struct Exact
{
  char* p;
  size_t n;
  explicit Exact(std::string const& s, bool nul = false) : p((char*)std::malloc(s.size() + nul + (s.size() + nul == 0))), n(s.size())
  {
    std::memcpy(p, s.data(), s.size());
    if (nul) p[n] = 0;
    if (s.size() + nul == 0) { std::free(p); p = (char*)std::malloc(0); }
  }
  ~Exact() { std::free(p); }
  Exact(Exact const&) = delete;
};

} // namespace vk
