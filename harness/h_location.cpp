// A01: locations of generated code of which the file, line, function and object are known.
// Arguments: DIR SEED CHILDREN SWEEP. DIR/expect.txt: what each probe must give; DIR/objects.txt: the generated objects.
#include "sys.h"
#include "debug.h"
#include "vk.h"
#include "dwoffline.h"
#include <fstream>
#include <sstream>
#include <thread>
#include <climits>
#include <dlfcn.h>
#include <link.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <mutex>

using namespace libcwd;
using vk::Rng;

extern "C" { int volatile vk_sink, vk_never = INT_MAX; }

struct Registered { std::string name; void (*run)(int); };
static std::vector<Registered>& registered() { static auto* v = new std::vector<Registered>; return *v; }
static std::map<int, std::set<uintptr_t>>& probes() { static auto* m = new std::map<int, std::set<uintptr_t>>; return *m; }

extern "C" void vk_register(char const* name, void (*run)(int)) { registered().push_back({name, run}); }
extern "C" __attribute__((noinline)) void vk_probe(int id)
{
  probes()[id].insert((uintptr_t)__builtin_return_address(0) + libcwd::builtin_return_address_offset);
  asm volatile("" ::: "memory");
}

struct Expect { std::string path; unsigned line; std::set<std::string> names; std::string plain; };
static std::map<int, Expect> expect;
struct Object { std::string name, path, debug; int kind; uintptr_t lbase = 0; bool loaded = false; };  // kind: 0 debug info, 1 none, 2 stripped.
static std::map<std::string, Object> objects;
static std::map<uintptr_t, std::string> owner_of_run;

static std::string real(std::string const& p)
{
  char b[PATH_MAX];
  return ::realpath(p.c_str(), b) ? b : p;
}

// The path with . and .. removed; the file itself need not exist.
static std::string norm(std::string const& p)
{
  std::vector<std::string> parts;
  std::stringstream ss(p);
  std::string x;
  while (std::getline(ss, x, '/'))
    if (x == "..") { if (!parts.empty()) parts.pop_back(); }
    else if (!x.empty() && x != ".") parts.push_back(x);
  std::string r;
  for (auto& y : parts) r += "/" + y;
  return r;
}

static std::string str(Location const& l)
{
  std::ostringstream os;
  os << l;
  return os.str();
}

static std::string hex(uintptr_t a) { char b[32]; std::snprintf(b, sizeof b, "0x%lx", (unsigned long)a); return b; }

static Object* object_at(uintptr_t addr)
{
  struct D { uintptr_t a, base; std::string name; bool found; } d{addr, 0, "", false};
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
    D* d = (D*)p;
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && d->a - (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr) < i->dlpi_phdr[k].p_memsz)
      { d->base = i->dlpi_addr; d->name = i->dlpi_name; d->found = true; return 1; }
    return 0;
  }, &d);
  if (!d.found) return nullptr;
  static auto* resolved = new std::map<std::string, std::string>;      // Before the working directory changes.
  std::string& rp = (*resolved)[d.name];
  if (rp.empty()) rp = d.name.empty() ? real("/proc/self/exe") : real(d.name);
  for (auto& kv : objects)
    if (real(kv.second.path) == rp) { kv.second.lbase = d.base; kv.second.loaded = true; return &kv.second; }
  static std::map<uintptr_t, Object> others;
  Object& o = others[d.base];
  o.path = rp; o.lbase = d.base; o.kind = 1; o.loaded = true; o.name = "other";
  return &o;
}

static vk::Dw& dw(Object& o)
{
  static auto* cache = new std::map<std::string, vk::Dw*>;      // Never freed.
  vk::Dw*& d = (*cache)[o.path];
  if (!d) d = new vk::Dw(o.path, o.debug.empty() ? o.path : o.debug, o.kind == 0, o.lbase);
  return *d;
}

static bool early = false;      // Before main() is reached no debug information is loaded.

// Compare what libcwd says about addr with the offline answer. want is what the generator knows, or null.
static void check(uintptr_t addr, Expect const* want, Location const& loc, char const* how)
{
  Object* o = object_at(addr);
  std::string key = std::string(how) + (early ? ":early" : "");
  auto fail = [&](char const* what, std::string const& w, std::string const& got) {
    vk::report.fail(std::string("location:") + what, key + " address " + hex(addr) + (o ? " = " + o->path + "+" + hex(addr - o->lbase) : "") + " wanted " + w + " got " + got + " printed " + str(loc));
  };
  if (!o)
  {
    if (loc.is_known()) fail("nowhere-known", "unknown", str(loc));
    if (loc.object_file()) fail("nowhere-object", "no object", loc.object_file()->filepath());
    if (loc.mangled_function_name() != unknown_function_c) fail("nowhere-function", unknown_function_c, loc.mangled_function_name());
    if (loc.unknown_pc() != (void*)addr) fail("nowhere-pc", hex(addr), hex((uintptr_t)loc.unknown_pc()));
    vk::report.stat("nowhere", 1);
    return;
  }
  if (!loc.object_file()) { fail("no-object", o->path, "null"); return; }
  if (real(loc.object_file()->filepath()) != real(o->path)) fail("object", o->path, loc.object_file()->filepath());
  if (o->path.find('/') != std::string::npos && loc.object_file()->filepath()[0] != '/') fail("object-path-not-full", o->path, loc.object_file()->filepath());
  if (std::string(loc.object_file()->filename()) != std::string(loc.object_file()->filepath()).substr(std::string(loc.object_file()->filepath()).rfind('/') + 1))
    fail("object-filename", loc.object_file()->filepath(), loc.object_file()->filename());
  if (o->name == "other")       // The debug information of system libraries may or may not be installed.
  {
    vk::report.stat("system_library", 1);
    return;
  }
  vk::Answer a = dw(*o).lookup(addr);
  std::string fn = loc.mangled_function_name() ? loc.mangled_function_name() : "(null)";
  if (early)
  {
    if (loc.is_known()) fail("early-known", "not known before main", str(loc));
    std::set<std::string> names = dw(*o).elf_names(addr);
    if (names.empty() ? fn != unknown_function_c : !names.count(fn)) fail("early-function", names.empty() ? "unknown" : *names.begin(), fn);
    vk::report.stat("early", 1);
    return;
  }
  if (!a.function)
  {
    if (loc.is_known()) fail("known-without-function", "unknown", str(loc));
    std::set<std::string> names = dw(*o).elf_names(addr);
    if (names.empty() ? fn != unknown_function_c : !names.count(fn)) fail("elf-function", names.empty() ? "unknown" : *names.begin(), fn);
    std::string p = pc_mangled_function_name((void*)addr);
    if (p != fn) fail("pc-function", fn, p);
    vk::report.stat(names.empty() ? "unknown" : "elf_only", 1);
    return;
  }
  if (fn != a.name) fail("function", a.name, fn);
  if (std::string p = pc_mangled_function_name((void*)addr); p != a.physical) fail("pc-function", a.physical, p);
  if (loc.is_known() != a.known) fail("known", a.known ? a.path + ":" + std::to_string(a.line) : "not known", loc.is_known() ? "known" : "not known");
  if (loc.is_known() && a.known)
  {
    std::ostringstream fp, fl;
    loc.print_filepath_on(fp);
    loc.print_filename_on(fl);
    auto full = [&](std::string const& p) { return norm(p[0] == '/' ? p : a.comp_dir + "/" + p); };
    if (fp.str() != a.path) fail("path", a.path, fp.str());
    if (fl.str() != fp.str().substr(fp.str().rfind('/') + 1)) fail("filename", fp.str(), fl.str());
    if (loc.file() != fl.str()) fail("file", fl.str(), loc.file());
    if (loc.filepath_length() != fp.str().size() || loc.filename_length() != fl.str().size()) fail("length", fp.str(), std::to_string(loc.filepath_length()));
    if (a.line && loc.line() != a.line) fail("line", std::to_string(a.line), std::to_string(loc.line()));
    if (!a.line) vk::report.stat("line_zero", 1);
    if (a.inlined) vk::report.stat("inlined", 1);
    if (want)
    {
      if (full(fp.str()) != norm(want->path)) fail("probe-path", want->path, fp.str());
      if (loc.line() != want->line) fail("probe-line", want->path + ":" + std::to_string(want->line), std::to_string(loc.line()));
      if (!want->names.count(fn) && !(fn == want->plain && !a.linkage)) fail("probe-function", *want->names.begin(), fn);
      vk::report.stat("probes", 1);
    }
    std::string s = str(loc), e = fl.str() + ":" + std::to_string(loc.line());
    if (s != e) fail("printed", e, s);
  }
  else if (want) fail("probe-unknown", want->path + ":" + std::to_string(want->line), str(loc));
}

static std::vector<std::pair<uintptr_t, Expect const*>> all;

static void collect(Rng& r, int sweep)
{
  all.clear();
  for (auto& kv : probes())
    for (uintptr_t a : kv.second)
    {
      Object* o = object_at(a);
      auto it = expect.find(kv.first);
      if (it == expect.end()) { vk::report.fail("harness:no-expectation", std::to_string(kv.first)); continue; }
      all.push_back({a, o && o->kind == 0 && !early && it->second.path != "-" ? &it->second : nullptr});
    }
  for (auto& reg : registered())
  {
    Object* o = object_at((uintptr_t)reg.run);
    if (!o) continue;
    auto ranges = dw(*o).functions();
    for (int k = 0; k < sweep && !ranges.empty(); ++k)
    {
      auto& f = r.pick(ranges);
      uintptr_t a = f.first + r.below(f.second - f.first);
      if (r.chance(20)) a = f.first;
      if (r.chance(20)) a = f.second - 1;
      if (r.chance(5)) a = f.second;          // Just outside.
      all.push_back({a, nullptr});
    }
  }
  // Libraries without debug information, and addresses that are nowhere.
  for (void* p : {(void*)&std::printf, (void*)&std::qsort, (void*)&::getpid, (void*)&std::strtod})
    all.push_back({(uintptr_t)p + r.below(3), nullptr});
  int local;
  for (uintptr_t a : {(uintptr_t)0, (uintptr_t)1, (uintptr_t)-1, (uintptr_t)-2, (uintptr_t)&local, (uintptr_t)all.data(), (uintptr_t)1 << 62, (uintptr_t)4096})
    all.push_back({a, nullptr});
}

static void lookups(Rng& r, size_t n)
{
  std::vector<size_t> order(all.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  Location reused;
  for (size_t i = 0; i < order.size() && i < n; ++i)
  {
    auto& x = all[r.chance(10) ? order[r.below(i + 1)] : order[i]];      // Now and then something that was looked up already.
    int k = r.below(4);
    std::string before;
    int e0 = (int)r.below(100);
    errno = e0;
    if (k == 0) { Location l((void*)x.first); if (errno != e0) vk::report.fail("location:errno", "errno changed from " + std::to_string(e0) + " to " + std::to_string(errno)); check(x.first, x.second, l, "constructed"); }
    else if (k == 1) { reused.pc_location((void*)x.first); check(x.first, x.second, reused, "re-used"); }
    else if (k == 2) { Location l; l.pc_location((void*)x.first); Location c(l); check(x.first, x.second, c, "copied"); }
    else
    {
      // In another thread.
      std::thread t([&] { Location l((void*)x.first); check(x.first, x.second, l, "thread"); });
      t.join();
    }
    vk::report.eval(x.second ? x.second->path + std::to_string(x.second->line) : hex(x.first));
  }
}

static char const* dir;
static uint64_t seed;

static void load_tables()
{
  std::ifstream e(std::string(dir) + "/expect.txt");
  std::string l;
  while (std::getline(e, l))
  {
    std::stringstream ss(l);
    std::string id, path, line, names, plain, n;
    std::getline(ss, id, '\t'); std::getline(ss, path, '\t'); std::getline(ss, line, '\t'); std::getline(ss, names, '\t'); std::getline(ss, plain, '\t');
    Expect x{path, (unsigned)std::stoul(line), {}, plain};
    std::stringstream ns(names);
    while (std::getline(ns, n, ',')) x.names.insert(n);
    expect[std::stoi(id)] = x;
  }
  std::ifstream o(std::string(dir) + "/objects.txt");
  while (std::getline(o, l))
  {
    std::stringstream ss(l);
    Object x;
    std::string kind;
    std::getline(ss, x.name, '\t'); std::getline(ss, x.path, '\t'); std::getline(ss, x.debug, '\t'); std::getline(ss, kind, '\t');
    x.kind = std::stoi(kind);
    objects[x.name] = x;
  }
}

// Look up some locations before main(): no debug information is used yet, and that must not change later answers.
struct Early
{
  Early()
  {
    char const* e = std::getenv("VK_EARLY");
    if (!e) return;
    static std::string d = std::getenv("VK_DIR");
    dir = d.c_str();
    load_tables();
    early = true;
    Rng r(std::strtoull(e, nullptr, 10));
    for (auto& reg : registered()) reg.run(1);
    collect(r, 5);
    int n = r.below(all.size());
    for (int i = 0; i < n; ++i)
    {
      auto& x = r.pick(all);
      Location l((void*)x.first);
      check(x.first, nullptr, l, "early");
    }
    early = false;
    expect.clear(); objects.clear(); probes().clear();
  }
};
static Early early_object;

int main(int argc, char** argv)
{
  dir = argv[1];
  seed = vk::arg_u64(argc, argv, 2, 1);
  int children = vk::arg_u64(argc, argv, 3, 4), sweep = vk::arg_u64(argc, argv, 4, 200);
  Debug(main_reached());
  load_tables();
  Rng r(seed);
  // Libraries that are not linked.
  for (auto& kv : objects)
    if (kv.second.name.rfind("dl", 0) == 0 && !dlopen(kv.second.path.c_str(), r.chance(50) ? RTLD_NOW : RTLD_LAZY))
    {
      std::printf("%s\n", dlerror());
      return 2;
    }
  for (auto& reg : registered()) reg.run(1);
  for (auto& reg : registered()) object_at((uintptr_t)reg.run);
  if (r.chance(50) && chdir("/")) return 2;
  std::fflush(stdout);
  for (int c = 0; c < children; ++c)
  {
    pid_t pid = fork();
    if (pid == 0)
    {
      Rng cr(seed * 1000 + c);
      collect(cr, sweep);
      lookups(cr, cr.chance(30) ? 20 : all.size());
      std::printf("\n");
      vk::report.stat("orders", 1);
      vk::report.done();
      std::fflush(stdout);
      std::exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (st)
    {
      std::printf("child %d: status %d\n", c, st);
      std::fflush(stdout);
      return WIFEXITED(st) ? WEXITSTATUS(st) : 77;
    }
  }
  std::printf("DONE\n");
  std::fflush(stdout);
  return 0;
}
