// An independent reading of the debug information of one object, with libdw and libelf, for comparison.
#pragma once
#include <elfutils/libdw.h>
#include <dwarf.h>
#include <gelf.h>
#include <fcntl.h>
#include <unistd.h>
#include <set>
#include <string>
#include <vector>
#include <cstring>
#include <cstdint>
#include <cstdlib>

namespace vk {

struct Answer
{
  bool function = false, known = false, linkage = false, inlined = false;
  std::string name, physical, path, comp_dir;
  unsigned line = 0;
};

class Dw
{
  struct F { uintptr_t start, end; Dwarf_Die die; };
  struct S { uintptr_t start, end; std::string name; };
  Dwarf* dw_ = nullptr;
  std::vector<F> functions_;
  std::vector<S> symbols_;
  uintptr_t lbase_;

  static void walk(Dw* self, Dwarf_Die* die)
  {
    Dwarf_Die c;
    if (dwarf_child(die, &c) != 0) return;
    do
    {
      if (dwarf_tag(&c) == DW_TAG_subprogram && dwarf_hasattr(&c, DW_AT_declaration) == 0)
      {
        Dwarf_Addr base, s, e;
        for (ptrdiff_t o = 0; (o = dwarf_ranges(&c, o, &base, &s, &e)) > 0;)
          if (s < e) self->functions_.push_back({self->lbase_ + s, self->lbase_ + e, c});
      }
      walk(self, &c);
    } while (dwarf_siblingof(&c, &c) == 0);
  }

  static std::string name_of(Dwarf_Die* die, bool* linkage)
  {
    Dwarf_Attribute a;
    if (char const* n = dwarf_formstring(dwarf_attr_integrate(die, DW_AT_linkage_name, &a))) { *linkage = true; return n; }
    char const* n = dwarf_diename(die);
    *linkage = false;
    return n ? n : "";
  }

  // The innermost inlined call that covers pc in the children of die.
  static bool inlined(Dwarf_Die* die, Dwarf_Addr pc, Dwarf_Die* out)
  {
    Dwarf_Die c;
    if (dwarf_child(die, &c) != 0) return false;
    do
    {
      int t = dwarf_tag(&c);
      bool here = t == DW_TAG_inlined_subroutine && dwarf_haspc(&c, pc) == 1;
      if (here || t == DW_TAG_lexical_block)
      {
        if (inlined(&c, pc, out)) return true;
        if (here) { *out = c; return true; }
      }
    } while (dwarf_siblingof(&c, &c) == 0);
    return false;
  }

  void symbols(std::string const& path)
  {
    elf_version(EV_CURRENT);
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0) return;
    Elf* e = elf_begin(fd, ELF_C_READ, nullptr);
    Elf_Scn* sc = nullptr;
    while (e && (sc = elf_nextscn(e, sc)))
    {
      GElf_Shdr h;
      gelf_getshdr(sc, &h);
      if (h.sh_type != SHT_SYMTAB && h.sh_type != SHT_DYNSYM) continue;
      Elf_Data* d = elf_getdata(sc, nullptr);
      for (size_t i = 0; d && i < h.sh_size / h.sh_entsize; ++i)
      {
        GElf_Sym s;
        gelf_getsym(d, i, &s);
        int t = GELF_ST_TYPE(s.st_info);
        if ((t == STT_FUNC || t == STT_GNU_IFUNC) && s.st_shndx != SHN_UNDEF && s.st_size)
          symbols_.push_back({lbase_ + s.st_value, lbase_ + s.st_value + s.st_size, elf_strptr(e, h.sh_link, s.st_name)});
      }
    }
    if (e) elf_end(e);
    close(fd);
  }

 public:
  Dw(std::string const& path, std::string const& debug, bool has_debug, uintptr_t lbase) : lbase_(lbase)
  {
    symbols(path);
    if (!has_debug) return;
    int fd = open(debug.c_str(), O_RDONLY);
    dw_ = fd < 0 ? nullptr : dwarf_begin(fd, DWARF_C_READ);
    if (!dw_) return;
    Dwarf_Off off = 0, next;
    size_t hs;
    while (dwarf_nextcu(dw_, off, &next, &hs, nullptr, nullptr, nullptr) == 0)
    {
      Dwarf_Die cu;
      if (dwarf_offdie(dw_, off + hs, &cu)) walk(this, &cu);
      off = next;
    }
  }

  // Where to look for addresses: the functions, or the symbols if there is no debug information.
  std::vector<std::pair<uintptr_t, uintptr_t>> functions() const
  {
    std::vector<std::pair<uintptr_t, uintptr_t>> r;
    for (auto& f : functions_) if (f.start > lbase_ + 4096) r.push_back({f.start, f.end});
    if (r.empty()) for (auto& s : symbols_) r.push_back({s.start, s.end});
    return r;
  }

  Answer lookup(uintptr_t addr)
  {
    Answer a;
    F* best = nullptr;
    for (auto& f : functions_)
      if (f.start <= addr && addr < f.end && (!best || f.end - f.start < best->end - best->start)) best = &f;
    if (!best) return a;
    a.function = true;
    a.name = a.physical = name_of(&best->die, &a.linkage);
    Dwarf_Die in, cu;
    if (inlined(&best->die, addr - lbase_, &in)) { a.name = name_of(&in, &a.linkage); a.inlined = true; }
    dwarf_diecu(&best->die, &cu, nullptr, nullptr);
    Dwarf_Attribute cd;
    if (char const* c = dwarf_formstring(dwarf_attr(&cu, DW_AT_comp_dir, &cd))) a.comp_dir = c;
    if (Dwarf_Line* l = dwarf_getsrc_die(&cu, addr - lbase_))
    {
      int n = 0;
      char const* p = dwarf_linesrc(l, nullptr, nullptr);
      if (p && dwarf_lineno(l, &n) == 0) { a.known = true; a.line = n; a.path = p; }
    }
    return a;
  }

  // The names of the smallest symbols that cover addr.
  std::set<std::string> elf_names(uintptr_t addr) const
  {
    std::set<std::string> r;
    uintptr_t best = ~(uintptr_t)0;
    for (auto& s : symbols_)
      if (s.start <= addr && addr < s.end)
      {
        if (s.end - s.start < best) { best = s.end - s.start; r.clear(); }
        if (s.end - s.start == best) r.insert(s.name);
      }
    return r;
  }
};

} // namespace vk
