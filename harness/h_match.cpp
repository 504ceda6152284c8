// M01: libcwd's glob matcher against a dynamic-programming reference.
#include "vk.h"
#include "match.h"
using namespace vk;

static bool ref(std::string const& m, std::string const& n)
{
  std::vector<char> cur(n.size() + 1, 0), nxt;
  cur[0] = 1;
  for (char c : m)
  {
    nxt.assign(n.size() + 1, 0);
    if (c == '*')
    {
      char any = 0;
      for (size_t j = 0; j <= n.size(); ++j) { any |= cur[j]; nxt[j] = any; }
    }
    else
      for (size_t j = 0; j < n.size(); ++j) if (cur[j] && n[j] == c) nxt[j + 1] = 1;
    cur.swap(nxt);
  }
  return cur[n.size()];
}

static void one(std::string const& m, std::string const& n, std::string const& after)
{
  bool want = ref(m, n);
  Exact en(n, true);
  bool got;
  if (after.empty())
  {
    Exact em(m);           // Reading past the mask is an AddressSanitizer report.
    got = libcwd::_private_::match(em.p, m.size(), en.p);
  }
  else
  {
    std::string t = m + after;   // What follows the mask must not matter.
    Exact em(t);
    got = libcwd::_private_::match(em.p, m.size(), en.p);
  }
  report.eval(m + "\1" + n + "\1" + after, !m.empty() && !n.empty());
  if (want) report.stat("matching", 1);
  if (got != want)
    report.fail(std::string("result:") + (want ? "missed" : "spurious"), "mask '" + esc(m) + "' (followed by '" + esc(after) + "') name '" + esc(n) + "': got " +
      (got ? "true" : "false") + ", the glob language says " + (want ? "true" : "false"));
}

int main(int argc, char** argv)
{
  Rng r(arg_u64(argc, argv, 1, 1));
  uint64_t cases = arg_u64(argc, argv, 2, 1000);
  int exh = (int)arg_u64(argc, argv, 3, 4);
  // Exhaustive over a small alphabet.
  std::vector<std::string> masks{""}, names{""};
  for (size_t i = 0; i < masks.size(); ++i) if ((int)masks[i].size() < exh) for (char c : {'a', 'b', '*'}) masks.push_back(masks[i] + c);
  for (size_t i = 0; i < names.size(); ++i) if ((int)names[i].size() < exh) for (char c : {'a', 'b'}) names.push_back(names[i] + c);
  long ex = 0;
  for (auto& m : masks)
    for (auto& n : names)
    {
      bool w = ref(m, n);
      Exact em(m), en(n, true);
      ++ex;
      bool g = libcwd::_private_::match(em.p, m.size(), en.p);
      if (g != w)
        report.fail(std::string("result:") + (w ? "missed" : "spurious"), "mask '" + m + "' name '" + n + "': got " + (g ? "true" : "false"));
    }
  report.stat("exhaustive_pairs", ex);
  report.evaluations += ex;
  static std::vector<std::string> const alph = {"ab", "abcDE_*", "NOTICEWARN ", "aA*?[]\\", std::string("\x01\xff\x80z*", 5)};
  for (uint64_t i = 0; i < cases; ++i)
  {
    auto const& a = r.pick(alph);
    std::string m, n;
    size_t nl = r.below(r.chance(10) ? 60 : 12);
    for (size_t j = 0; j < nl; ++j) { char c = r.pick(a); if (c != '*' || r.chance(20)) n += c; }
    if (r.chance(70))
    { // Derive the mask from the name, so that matches are frequent.
      for (size_t j = 0; j < n.size();)
      {
        if (r.chance(20)) { m += '*'; if (r.chance(20)) m += '*'; j += r.below(4); }
        else m += n[j++];
      }
      if (r.chance(30)) m += '*';
      if (r.chance(30) && !m.empty()) m[r.below(m.size())] = r.pick(a);
      if (r.chance(15) && !m.empty()) m.pop_back();
    }
    else
    {
      size_t ml = r.below(10);
      for (size_t j = 0; j < ml; ++j) m += r.chance(30) ? '*' : r.pick(a);
    }
    int stars = 0; std::string m2;
    for (char c : m) { if (c == '*') ++stars; if (c != '*' || stars <= 8) m2 += c; }  // Bounded backtracking.
    m = m2;
    std::string after;
    if (r.chance(40))
    {
      if (r.chance(50) && n.size() > m.size()) after = n.substr(m.size());   // continues like the name
      else after = r.chance(50) ? "*" : ",*";
    }
    one(m, n, after);
    if (i % (cases / 4 + 1) == 7) report.sample("mask=" + m + " name=" + n);
  }
  return report.done();
}
