// A02: histories of Location objects as values. Arguments: SEED FIRST CASES OPS.
#include "sys.h"
#include "debug.h"
#include "vk.h"
#include <sstream>
#include <iomanip>
#include <iostream>
#include <mutex>
#include <memory>
#include <thread>
#include <climits>

using namespace libcwd;
using vk::Rng;

static std::vector<uintptr_t> addresses;
extern "C" __attribute__((noinline)) void vk_here() { addresses.push_back((uintptr_t)__builtin_return_address(0) + libcwd::builtin_return_address_offset); asm volatile("" ::: "memory"); }

// Code without debug information: only symbols, or not even that.
asm(".text\n.type vk_elf_only,@function\nvk_elf_only:\n nop\n nop\n ret\n.size vk_elf_only,.-vk_elf_only\n.globl vk_nosize\nvk_nosize:\n nop\n nop\n ret\n");
extern "C" void vk_elf_only();
extern "C" void vk_nosize();

namespace a_namespace {
__attribute__((noinline)) void first(int)
{
  vk_here();
  asm volatile("");
}
struct Klass { template<typename T> __attribute__((noinline)) static T method(T x) { vk_here(); asm volatile(""); return x; } };
static inline __attribute__((always_inline)) void inl() { vk_here(); asm volatile(""); }
}
#line 7 "nodirectory.y"
extern "C" __attribute__((noinline)) void c_function() { vk_here(); a_namespace::inl(); asm volatile(""); }
#line 4000000 "/absolute/../path with space/x"
static __attribute__((noinline)) void other() { vk_here(); asm volatile(""); }
#line 44 "h_locvalue.cpp"

struct Text { bool known; std::string object, objectpath, function, path, file; unsigned line; void const* pc; };      // What an address gives.
static std::map<uintptr_t, Text> truth;

enum Kind { UNINIT, CLEARED, LOOKED };
enum Tri { NO, YES, MAYBE };
struct Storage { Tri dead = NO; };
struct M
{
  Kind kind = UNINIT;
  uintptr_t pc = 0;
  Tri own = NO, lock = NO;
  std::shared_ptr<Storage> st;
  bool known() const { return kind == LOOKED && truth[pc].known; }
  bool readable() const { return !known() || st->dead == NO; }
  void release()
  {
    if (known() && own != NO) st->dead = st->dead == YES || own == YES ? YES : MAYBE;
    own = NO;
    st.reset();
    if (lock == YES) lock = MAYBE;
  }
  void lookup(uintptr_t a)
  {
    release();
    kind = LOOKED;
    pc = a;
    if (known()) { st = std::make_shared<Storage>(); own = YES; }
  }
  void clear() { release(); kind = CLEARED; }
  // Copy from s into this, which holds nothing.
  void take(M& s)
  {
    kind = s.kind; pc = s.pc; st = s.st;
    if (!known()) { own = NO; return; }
    if (s.own == NO) own = NO;
    else if (s.lock == YES) own = NO;
    else if (s.own == YES && s.lock == NO) { own = YES; s.own = NO; }
    else { own = MAYBE; s.own = MAYBE; }
  }
  void assign(M& s)
  {
    if (this == &s) return;
    if (known() && s.known() && st == s.st && own != NO)
    {
      // The storage is shared and stays.
      if (s.own != NO) own = MAYBE, s.own = MAYBE;
      return;
    }
    release();
    take(s);
  }
};

static std::string print(Location const& l, location_format_t f, bool hex = false)
{
  location_format_t old = location_format(f);
  std::ostringstream os;
  if (hex) os << std::hex << std::showbase;
  os << l;
  location_format_t now = location_format(old);
  if (now != f) vk::report.fail("locvalue:format", "location_format returned " + std::to_string(now) + " instead of " + std::to_string(f));
  return os.str();
}

static std::string ptr(void const* p) { std::ostringstream os; os << p; return os.str(); }

static std::string expected(M const& m, location_format_t f)
{
  if (m.kind != LOOKED) return "<unknown object file> (at " + ptr(nullptr) + ")";
  Text const& t = truth[m.pc];
  if (t.known)
    return ((f & show_objectfile) ? t.object + ":" : "") + ((f & show_function) ? t.function + ":" : "") + ((f & show_path) ? t.path : t.file) + ":" + std::to_string(t.line);
  if (!t.object.empty()) return t.object + ":" + t.function;
  return "<unknown object file> (at " + ptr((void*)m.pc) + ")";
}

static std::string history;
static Text read(Location const& l)
{
  Text t{l.is_known(), "", "", l.mangled_function_name(), "", "", 0, l.unknown_pc()};
  if (l.object_file()) t.object = l.object_file()->filename(), t.objectpath = l.object_file()->filepath();
  if (l.is_known())
  {
    std::ostringstream p, f;
    l.print_filepath_on(p);
    l.print_filename_on(f);
    t.path = p.str(); t.file = f.str(); t.line = l.line();
    if (l.file() != t.file) vk::report.fail("locvalue:file", t.file + " / " + l.file());
    if (l.filepath_length() != t.path.size() || l.filename_length() != t.file.size()) vk::report.fail("locvalue:length", history);
  }
  else if (l.filepath_length() || l.filename_length()) vk::report.fail("locvalue:length-unknown", history);
  return t;
}

static long compared;
static void compare(Location const& l, M const& m, Rng& r)
{
  if (l.is_known() != m.known()) { vk::report.fail("locvalue:known", history); return; }
  if (!m.readable()) return;
  ++compared;
  Text t = read(l);
  if (m.kind == LOOKED)
  {
    Text const& w = truth[m.pc];
    if (t.object != w.object || t.objectpath != w.objectpath) vk::report.fail("locvalue:object", "wanted " + w.objectpath + " got " + t.objectpath + ": " + history);
    if (t.function != w.function) vk::report.fail("locvalue:function", "wanted " + w.function + " got " + t.function + ": " + history);
    if (t.path != w.path || t.file != w.file) vk::report.fail("locvalue:path", "wanted " + w.path + " got " + t.path + ": " + history);
    if (t.line != w.line) vk::report.fail("locvalue:line", "wanted " + std::to_string(w.line) + " got " + std::to_string(t.line) + ": " + history);
    if (w.object.empty() && t.pc != (void*)m.pc) vk::report.fail("locvalue:pc", "wanted " + ptr((void*)m.pc) + " got " + ptr(t.pc) + ": " + history);
  }
  else
  {
    if (!t.object.empty()) vk::report.fail("locvalue:object-of-none", history);
    if (t.pc) vk::report.fail("locvalue:pc-of-none", history);
    if (m.kind == UNINIT && t.function != "<uninitialized Location>") vk::report.fail("locvalue:uninitialized", t.function + ": " + history);
    if (m.kind == CLEARED && t.function.find("<cleared") != 0) vk::report.fail("locvalue:cleared", t.function + ": " + history);
  }
  if (l.initialization_delayed()) vk::report.fail("locvalue:delayed", history);
  location_format_t f = r.below(8);
  bool hex = r.chance(20) && m.known();
  std::string s = print(l, f, hex);
  if (s != expected(m, f)) vk::report.fail("locvalue:printed", "format " + std::to_string(f) + " wanted " + expected(m, f) + " got " + s + ": " + history);
}

static void one(uint64_t seed, uint64_t index, int ops)
{
  Rng r(seed * 1000003 + index);
  struct Slot { std::unique_ptr<Location> l; M m; };
  size_t n = 2 + r.below(5);
  std::vector<Slot> pool(n);
  std::vector<uintptr_t> addrs;
  for (auto& kv : truth) addrs.push_back(kv.first);
  history.clear();
  for (int i = 0; i < ops; ++i)
  {
    size_t a = r.below(n), b = r.below(n);
    Slot &A = pool[a], &B = pool[b];
    int op = r.below(12);
    auto h = [&](char const* w, bool two = false) { history += std::string(" ") + w + std::to_string(a); if (two) history += "," + std::to_string(b); if (history.size() > 600) history.erase(0, 200); };
    if (!A.l)
    {
      if (op < 5)
      {
        uintptr_t p = r.pick(addrs);
        h("new");
        A.l.reset(new Location((void*)p));
        A.m = M();
        A.m.lookup(p);
      }
      else if (op < 7) { h("default"); A.l.reset(new Location); A.m = M(); }
      else if (B.l) { h("copy", true); A.l.reset(new Location(*B.l)); A.m = M(); A.m.take(B.m); }
    }
    else if (op == 0) { h("delete"); A.m.release(); A.l.reset(); }
    else if (op == 1) { h("clear"); A.l->clear(); A.m.clear(); }
    else if (op <= 3) { uintptr_t p = r.pick(addrs); h("lookup"); A.l->pc_location((void*)p); A.m.lookup(p); }
    else if (op == 4)
    {
      if (A.m.known() && A.m.own == YES) { h("lock"); A.l->lock_ownership(); A.m.lock = YES; vk::report.stat("locked", 1); }
      else if (!A.m.known()) { h("lock?"); A.l->lock_ownership(); }
    }
    else if (op <= 8 && B.l) { h("assign", true); *A.l = *B.l; A.m.assign(B.m); if (a == b) vk::report.stat("self_assigned", 1); }
    else if (op == 9 && B.l && a != b)
    {
      h("swap", true);
      std::swap(*A.l, *B.l);
      M t; t.take(A.m); A.m.assign(B.m); B.m.assign(t); t.release();
    }
    else if (op == 10)
    {
      // Through a growing vector.
      h("vector");
      std::vector<Location> v;
      int k = 1 + r.below(3);
      std::vector<M> vm;
      v.reserve(1); vm.reserve(1);
      v.push_back(*A.l); vm.emplace_back(); vm.back().take(A.m);
      for (int j = 0; j < k; ++j)
      {
        bool grows = v.size() == v.capacity();
        v.emplace_back();
        if (grows)
        {
          std::vector<M> nm(vm.size());
          for (size_t x = 0; x < vm.size(); ++x) nm[x].take(vm[x]);
          for (auto& x : vm) x.release();
          vm.swap(nm);
        }
        vm.emplace_back();
      }
      for (size_t x = 0; x < v.size(); ++x) compare(v[x], vm[x], r);
      *A.l = v[0]; A.m.assign(vm[0]);
      for (auto& x : vm) x.release();
    }
    for (auto& s : pool) if (s.l && r.chance(40)) compare(*s.l, s.m, r);
  }
  for (auto& s : pool) if (s.l) { compare(*s.l, s.m, r); s.m.release(); s.l.reset(); }
  vk::report.eval(history, true);
  if (index < 3) vk::report.sample(history);
}

int main(int argc, char** argv)
{
  Debug(main_reached());
  static std::mutex mutex;
  Debug(libcw_do.set_ostream(&std::cerr, &mutex));
  uint64_t seed = vk::arg_u64(argc, argv, 1, 1), first = vk::arg_u64(argc, argv, 2, 0), cases = vk::arg_u64(argc, argv, 3, 100);
  int ops = vk::arg_u64(argc, argv, 4, 60);
  a_namespace::first(1); a_namespace::Klass::method(1); a_namespace::Klass::method(1.); a_namespace::inl(); c_function(); other();
  int local;
  for (uintptr_t p : {(uintptr_t)&vk_elf_only, (uintptr_t)&vk_elf_only + 1, (uintptr_t)&vk_nosize, (uintptr_t)0, (uintptr_t)&local, (uintptr_t)-1, (uintptr_t)&std::qsort}) addresses.push_back(p);
  int known = 0;
  for (uintptr_t p : addresses)
  {
    Location l((void*)p);
    truth[p] = read(l);
    known += l.is_known();
  }
  if (known < 7 || truth[(uintptr_t)&vk_elf_only].known || truth[(uintptr_t)&vk_elf_only].object.empty() || !truth[0].object.empty())
  {
    std::printf("not the kinds of addresses that are needed\n");
    return 2;
  }
  for (uint64_t i = first; i < first + cases; ++i)
    if (i % 4) one(seed, i, ops);
    else { std::thread t(one, seed, i, ops); t.join(); }
  vk::report.stat("compared", compared);
  return vk::report.done();
}
