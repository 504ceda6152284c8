// S01: insert_function_symbol_range against a brute-force model.
#include "vk.h"
#include "dwarf_symbol_ranges.h"
#include <libcwd/debug.h>
using namespace vk;
using namespace libcwd::dwarf;

struct Sym { uintptr_t s, e; bool elf; std::string name; };

// The range (index) that owns address a: sequentially, the new one wins if it has debug info and the old one has
// not, or if both are alike and its size is strictly smaller.
static int owner(std::vector<Sym> const& v, uintptr_t a)
{
  int cur = -1;
  for (int i = 0; i < (int)v.size(); ++i)
  {
    if (v[i].s >= v[i].e || a < v[i].s || a >= v[i].e) continue;
    if (cur < 0) { cur = i; continue; }
    if (v[cur].elf != v[i].elf) { if (v[cur].elf) cur = i; continue; }
    if (v[i].e - v[i].s < v[cur].e - v[cur].s) cur = i;
  }
  return cur;
}

int main(int argc, char** argv)
{
  Rng r(arg_u64(argc, argv, 1, 1));
  uint64_t cases = arg_u64(argc, argv, 2, 1000);
  static int dummy;
  long inserts = 0, lookups = 0, covered = 0;
  for (uint64_t c = 0; c < cases; ++c)
  {
    std::vector<Sym> v;
    FunctionSymbolRanges m;
    size_t k = 1 + r.below(r.chance(10) ? 60 : 9);
    uintptr_t span = r.chance(50) ? 12 : r.chance(50) ? 40 : 100000;
    uintptr_t base = r.chance(10) ? UINTPTR_MAX - span : r.chance(20) ? 0 : 0x1000;
    std::string desc;
    v.reserve(k);
    for (size_t i = 0; i < k; ++i)
    {
      Sym s;
      s.s = base + r.below(span);
      s.e = r.chance(3) ? s.s - r.below(s.s - base + 1) : s.s + r.below(base + span - s.s + 1);
      if (!v.empty() && r.chance(35))      // Share or touch a boundary of an earlier range.
      {
        Sym const& o = r.pick(v);
        switch (r.below(5)) { case 0: s.s = o.s; break; case 1: s.e = o.e; break; case 2: s.s = o.e; break; case 3: s.e = o.s; break; default: s.s = o.s; s.e = o.e; }
      }
      s.elf = r.chance(45);
      s.name = "f" + std::to_string(i);
      v.push_back(s);
      desc += (s.elf ? " E[" : " D[") + std::to_string(s.s - base) + "," + std::to_string((intptr_t)(s.e - base)) + ")";
    }
    bool sampled = false;
    for (size_t i = 0; i < k; ++i)
    {
      Dwarf_Die die{};
      die.addr = &dummy;
      std::vector<Sym> upto(v.begin(), v.begin() + i + 1);
      bool ins = insert_function_symbol_range(m, v[i].s, v[i].e, v[i].name.c_str(), v[i].elf ? nullptr : &die);
      ++inserts;
      // Check after every insertion at every boundary and next to it.
      std::set<uintptr_t> pts;
      for (auto& s : upto) for (uintptr_t p : {s.s, s.e}) { pts.insert(p); if (p != 0) pts.insert(p - 1); if (p != UINTPTR_MAX) pts.insert(p + 1); }
      bool owns = false;
      for (uintptr_t p : pts)
      {
        int want = owner(upto, p);
        if (want == (int)i) owns = true;
        auto it = m.upper_bound(p);        // As the library looks an address up: keyed by end address.
        std::string got = it != m.end() && it->second.start_addr() <= p ? it->second.name() : "";
        std::string w = want < 0 ? "" : v[want].name;
        ++lookups;
        if (want >= 0) ++covered;
        if (got != w)
          report.fail(w.empty() ? "uncovered address mapped" : got.empty() ? "covered address lost" : "wrong symbol",
            "after inserting the first " + std::to_string(i + 1) + " of" + desc + ": address " + std::to_string(p - base) + " maps to '" + got + "' instead of '" + w + "'");
        if (want >= 0 && it != m.end() && it->second.start_addr() <= p)
        {
          if (it->second.is_elf_symbol() != v[want].elf) report.fail("provenance", desc);
          if (it->second.size() != v[want].e - v[want].s) report.fail("original size", desc);
        }
      }
      if (ins != owns) report.fail("return value", "inserting number " + std::to_string(i) + " of" + desc + " returned " + (ins ? "true" : "false"));
      uintptr_t prev = 0; bool first = true;
      for (auto& [e, s] : m)
      {
        if (e != s.end_addr() || s.start_addr() >= s.end_addr() || (!first && s.start_addr() < prev))
          report.fail("stored ranges overlap or are ill-formed", desc);
        prev = s.end_addr(); first = false;
      }
    }
    report.eval(desc, k > 1);
    if (c % (cases / 3 + 1) == 3 && !sampled) report.sample(desc);
  }
  report.stat("insertions", inserts);
  report.stat("address_lookups", lookups);
  report.stat("covered_lookups", covered);
  return report.done();
}
