// X01, A03: locations while libraries are loaded and unloaded, by one or by several threads.
// Arguments: DIR MODE SEED FIRST CASES OPS [THREADS]. DIR holds the libraries that vk/props/locations.py made; MODE: s(equential), c(oncurrent) or b(urst).
#include "sys.h"
#include "debug.h"
#include "vk.h"
#include "dwoffline.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <thread>
#include <atomic>
#include <mutex>
#include <climits>
#include <csignal>
#include <dlfcn.h>
#include <link.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace libcwd;
using vk::Rng;

extern "C" {
int volatile vk_sink, vk_never = INT_MAX;
void vk_register(char const*, void (*)(int)) { }
void vk_probe(int) { vk_sink += 1; }
}

#ifdef __SANITIZE_THREAD__
#define VK_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VK_TSAN 1
#endif
#endif
#ifdef VK_TSAN
// libdw is not thread-safe and its code is not instrumented: treat every call as a write to the handle.
extern "C" void __tsan_write1(void*);
static std::atomic<long> libdw_calls;
static thread_local unsigned jitter_state = 1;
static void touch(Dwarf* d)
{
  if (!d) return;
  libdw_calls.fetch_add(1, std::memory_order_relaxed);
  __tsan_write1(d);
  jitter_state = jitter_state * 1103515245 + 12345;
  if ((jitter_state >> 16) % 400 == 0) std::this_thread::yield();
}
static void touch(Dwarf_Die* d) { if (d && d->cu) touch(dwarf_cu_getdwarf(d->cu)); }
extern "C" {
#define W1(ret, name, T, args, call) ret __real_##name args; ret __wrap_##name args { touch((T)a); return __real_##name call; }
W1(Dwarf_Die*, dwarf_diecu, Dwarf_Die*, (Dwarf_Die* a, Dwarf_Die* b, uint8_t* c, uint8_t* d), (a, b, c, d))
W1(int, dwarf_getscopes, Dwarf_Die*, (Dwarf_Die* a, Dwarf_Addr b, Dwarf_Die** c), (a, b, c))
W1(int, dwarf_getscopes_die, Dwarf_Die*, (Dwarf_Die* a, Dwarf_Die** c), (a, c))
W1(Dwarf_Line*, dwarf_getsrc_die, Dwarf_Die*, (Dwarf_Die* a, Dwarf_Addr b), (a, b))
W1(int, dwarf_getsrclines, Dwarf_Die*, (Dwarf_Die* a, Dwarf_Lines** b, size_t* c), (a, b, c))
W1(int, dwarf_child, Dwarf_Die*, (Dwarf_Die* a, Dwarf_Die* b), (a, b))
W1(int, dwarf_siblingof, Dwarf_Die*, (Dwarf_Die* a, Dwarf_Die* b), (a, b))
W1(int, dwarf_tag, Dwarf_Die*, (Dwarf_Die* a), (a))
W1(int, dwarf_haspc, Dwarf_Die*, (Dwarf_Die* a, Dwarf_Addr b), (a, b))
W1(char const*, dwarf_diename, Dwarf_Die*, (Dwarf_Die* a), (a))
W1(Dwarf_Attribute*, dwarf_attr_integrate, Dwarf_Die*, (Dwarf_Die* a, unsigned b, Dwarf_Attribute* c), (a, b, c))
W1(Dwarf_Attribute*, dwarf_attr, Dwarf_Die*, (Dwarf_Die* a, unsigned b, Dwarf_Attribute* c), (a, b, c))
W1(ptrdiff_t, dwarf_ranges, Dwarf_Die*, (Dwarf_Die* a, ptrdiff_t b, Dwarf_Addr* c, Dwarf_Addr* d, Dwarf_Addr* e), (a, b, c, d, e))
W1(ptrdiff_t, dwarf_getfuncs, Dwarf_Die*, (Dwarf_Die* a, int (*b)(Dwarf_Die*, void*), void* c, ptrdiff_t d), (a, b, c, d))
W1(int, dwarf_nextcu, Dwarf*, (Dwarf* a, Dwarf_Off b, Dwarf_Off* c, size_t* d, Dwarf_Off* e, uint8_t* f, uint8_t* g), (a, b, c, d, e, f, g))
W1(Dwarf_Die*, dwarf_offdie, Dwarf*, (Dwarf* a, Dwarf_Off b, Dwarf_Die* c), (a, b, c))
W1(Dwarf_Die*, dwarf_addrdie, Dwarf*, (Dwarf* a, Dwarf_Addr b, Dwarf_Die* c), (a, b, c))
W1(int, dwarf_end, Dwarf*, (Dwarf* a), (a))
// These two are what the calls in libcwd itself are renamed to.
// The lock of the dynamic loader is invisible for ThreadSanitizer: it is held during all of dlopen and dlclose.
static std::recursive_mutex& loader() { static auto* m = new std::recursive_mutex; return *m; }
static std::atomic<void* (*)(char const*, int)> next_dlopen;
static std::atomic<int (*)(void*)> next_dlclose;
static void* shim_dlopen(char const* n, int f) { std::lock_guard<std::recursive_mutex> l(loader()); return next_dlopen.load()(n, f); }
static int shim_dlclose(void*);
void* vk_dlsym(void* h, char const* n)
{
  void* p = dlsym(h, n);
  if (h == RTLD_NEXT && !std::strcmp(n, "dlopen")) { next_dlopen = (void* (*)(char const*, int))p; return (void*)shim_dlopen; }
  if (h == RTLD_NEXT && !std::strcmp(n, "dlclose")) { next_dlclose = (int (*)(void*))p; return (void*)shim_dlclose; }
  return p;
}
// Likewise what dl_iterate_phdr passes on: give the function a copy.
struct PhdrCopy { int (*f)(dl_phdr_info*, size_t, void*); void* d; };
__attribute__((no_sanitize("thread"))) static int phdr_copy(dl_phdr_info* i, size_t n, void* d)
{
  PhdrCopy* c = (PhdrCopy*)d;
  dl_phdr_info info;
  char name[PATH_MAX];
  ElfW(Phdr) phdr[64];
  auto copy = [](void volatile* to, void const volatile* from, size_t n) __attribute__((no_sanitize("thread"))) {
    for (size_t k = 0; k < n; ++k) ((char volatile*)to)[k] = ((char const volatile*)from)[k];
  };
  copy(&info, i, sizeof info);
  size_t len = 0;
  while (i->dlpi_name && ((char const volatile*)i->dlpi_name)[len] && len < sizeof name - 1) ++len;
  copy(name, i->dlpi_name, len);
  name[len] = 0;
  if (info.dlpi_phnum > 64) std::abort();
  copy(phdr, i->dlpi_phdr, info.dlpi_phnum * sizeof(ElfW(Phdr)));
  info.dlpi_name = i->dlpi_name ? name : nullptr;
  info.dlpi_phdr = phdr;
  return c->f(&info, n, c->d);
}
// What a thread did before dlclose happens before what another thread does that sees the library disappeared.
void __tsan_acquire(void*);
void __tsan_release(void*);
static char unloading;
int vk_dl_iterate_phdr(int (*f)(dl_phdr_info*, size_t, void*), void* d)
{
  PhdrCopy c{f, d};
  int res = dl_iterate_phdr(phdr_copy, &c);
  __tsan_acquire(&unloading);
  return res;
}
static int shim_dlclose(void* h)
{
  std::lock_guard<std::recursive_mutex> l(loader());
  __tsan_release(&unloading);
  return next_dlclose.load()(h);
}
}
#endif

static std::string dir;
static std::string real(std::string const& p) { char b[PATH_MAX]; return ::realpath(p.c_str(), b) ? b : p; }
static std::string hex(uintptr_t a) { char b[32]; std::snprintf(b, sizeof b, "0x%lx", (unsigned long)a); return b; }

// What the debug information of a file says, at offset 0. A file that was replaced has another inode.
struct File
{
  vk::Dw dw;
  std::vector<std::pair<uintptr_t, uintptr_t>> functions;
  std::map<uintptr_t, vk::Answer> answers;     // A sample.
  File(std::string const& p, Rng& r) : dw(p, p, true, 0), functions(dw.functions())
  {
    for (int i = 0; i < 120 && !functions.empty(); ++i)
    {
      auto& f = r.pick(functions);
      uintptr_t a = f.first + r.below(f.second - f.first);
      answers[a] = dw.lookup(a);
    }
  }
};
static File& file(std::string const& path)
{
  static auto* m = new std::map<std::pair<std::string, ino_t>, File*>;
  struct stat st;
  if (stat(path.c_str(), &st)) std::abort();
  File*& f = (*m)[{path, st.st_ino}];
  Rng r(st.st_size);
  if (!f) f = new File(path, r);
  return *f;
}

// The objects that are loaded now: real path to load base.
struct Loaded { std::map<std::string, uintptr_t> base; std::map<std::string, std::vector<std::pair<uintptr_t, uintptr_t>>> segments; };
static Loaded loaded()
{
  struct E { std::string name; uintptr_t base; std::vector<std::pair<uintptr_t, uintptr_t>> seg; };
  std::vector<E> v;
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
    E e{i->dlpi_name, i->dlpi_addr, {}};
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_LOAD)
        e.seg.push_back({i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz});
    ((std::vector<E>*)p)->push_back(e);
    return 0;
  }, &v);
  Loaded l;
  for (auto& e : v)
  {
    std::string p = e.name.empty() ? real("/proc/self/exe") : real(e.name[0] != '/' && e.name.find('/') != std::string::npos ? dir + "/" + e.name : e.name);
    l.base[p] = e.base;
    l.segments[p] = e.seg;
  }
  return l;
}

static void check_answer(std::string const& key, uintptr_t addr, std::string const& object, vk::Answer const& a, std::string const& history)
{
  Location l((void*)addr);
  auto fail = [&](char const* what, std::string const& w, std::string const& got) {
    vk::report.fail(key + ":" + what, object + " address " + hex(addr) + " wanted " + w + " got " + got + " after" + history);
  };
  if (!l.object_file()) { fail("no-object", object, "no object file"); return; }
  if (real(l.object_file()->filepath()) != object) fail("object", object, l.object_file()->filepath());
  if (a.function && l.mangled_function_name() != a.name) fail("function", a.name, l.mangled_function_name());
  if (l.is_known() != a.known) fail("known", a.known ? "known" : "unknown", l.is_known() ? "known" : "unknown");
  else if (a.known)
  {
    std::ostringstream os;
    l.print_filepath_on(os);
    if (os.str() != a.path) fail("path", a.path, os.str());
    if (a.line && l.line() != a.line) fail("line", std::to_string(a.line), std::to_string(l.line()));
  }
}

struct Lib { std::string name, path; std::vector<std::string> spellings; int kind; };   // kind: 0 good, 1 cannot be loaded, 2 replaceable.
static std::vector<Lib> libs;
static void read_libs()
{
  std::ifstream f(dir + "/libs.txt");
  std::string l;
  while (std::getline(f, l))
  {
    std::stringstream ss(l);
    Lib x;
    std::string kind, s;
    std::getline(ss, x.name, '\t'); std::getline(ss, x.path, '\t'); std::getline(ss, kind, '\t');
    x.kind = std::stoi(kind);
    while (std::getline(ss, s, '\t')) x.spellings.push_back(s);
    libs.push_back(x);
  }
}

static std::string history;
static void sequential(uint64_t seed, uint64_t index, int ops)
{
  Rng r(seed * 1000003 + index);
  history.clear();
  if (r.chance(50))
  {
    Debug(libcw_do.on());
    Debug(dc::elfutils.on());
  }
  struct Handle { void* h; std::string real; };
  std::vector<Handle> handles;
  std::map<std::string, uintptr_t> gone;        // An address in what was loaded.
  std::set<std::string> ours;
  int version = 0;
  bool home = true;
  auto verify = [&] {
    Loaded now = loaded();
    for (auto& l : libs)
    {
      if (l.kind == 1) continue;
      std::string rp = real(l.path);
      auto it = now.base.find(rp);
      if (it == now.base.end()) continue;
      File& f = file(rp);
      int n = 1 + r.below(3);
      while (n--)
      {
        auto a = f.answers.begin();
        std::advance(a, r.below(f.answers.size()));
        check_answer("dl:loaded", it->second + a->first, rp, a->second, history);
        vk::report.stat("lookups", 1);
        gone[rp] = it->second + a->first;
      }
    }
    if (r.chance(30))
      for (auto& g : gone)
      {
        now = loaded();         // A lookup may load libdebuginfod.
        bool inside = false;
        for (auto& s : now.segments) for (auto& x : s.second) inside |= x.first <= g.second && g.second < x.second;
        if (inside) continue;
        Location l((void*)g.second);
        if (l.is_known() || l.object_file() || l.unknown_pc() != (void*)g.second)
        {
          std::ostringstream os; os << l;
          vk::report.fail("dl:unloaded", g.first + " was unloaded but " + hex(g.second) + " gives " + os.str() + " after" + history);
        }
        vk::report.stat("unloaded_lookups", 1);
      }
  };
  for (int i = 0; i < ops; ++i)
  {
    int op = r.below(10);
    if (op < 5 || handles.empty())
    {
      Lib const& l = r.pick(libs);
      std::string sp = r.pick(l.spellings);
      if (!home && l.kind != 1 && sp[0] == '.') sp = l.path;
      int flags = r.chance(50) ? RTLD_NOW : RTLD_LAZY;
      if (r.chance(25)) flags |= RTLD_GLOBAL;
      if (r.chance(15)) flags |= RTLD_NOLOAD;
      if (r.chance(3)) flags |= RTLD_NODELETE;
      if (l.kind == 1 && (flags & RTLD_LAZY) && r.chance(50)) flags ^= RTLD_LAZY | RTLD_NOW;
      std::string rp = real(l.path);
      bool was = loaded().base.count(rp);
      history += " open(" + l.name + (flags & RTLD_NOLOAD ? ",noload" : "") + (flags & RTLD_NODELETE ? ",nodelete" : "") + ")";
      dlerror();
      void* h = dlopen(sp.c_str(), flags);
      char const* e = dlerror();
      bool want = l.kind != 1 && (!(flags & RTLD_NOLOAD) || was);
      if (want != !!h) vk::report.fail("dl:open-result", l.name + " flags " + std::to_string(flags) + " gave " + (h ? "a handle" : "null") + (e ? std::string(", ") + e : "") + " after" + history);
      if (h && e) vk::report.fail("dl:error-after-success", std::string(e) + " after" + history);
      // glibc does not set an error when RTLD_NOLOAD did not find it.
      if (!h && !e && !(flags & RTLD_NOLOAD)) vk::report.fail("dl:no-error", l.name + " after" + history);
      if (h)
      {
        for (auto& x : handles) if (x.real == rp && x.h != h) vk::report.fail("dl:other-handle", l.name + " after" + history);
        handles.push_back({h, rp});
        if (!dlsym(h, ("vk_run_" + l.name.substr(0, l.name.find('.'))).c_str())) vk::report.fail("dl:handle", std::string(dlerror()) + " after" + history);
        if (!loaded().base.count(rp)) vk::report.fail("harness:not-loaded", rp + " after" + history);
        vk::report.stat("opened", 1);
        if (was) vk::report.stat("opened_again", 1);
      }
      else vk::report.stat("not_opened", 1);
    }
    else if (op < 9)
    {
      size_t k = r.below(handles.size());
      std::string rp = handles[k].real;
      history += " close(" + rp.substr(rp.rfind('/') + 1) + ")";
      int res = dlclose(handles[k].h);
      if (res) vk::report.fail("dl:close-result", std::to_string(res) + " after" + history);
      handles.erase(handles.begin() + k);
      vk::report.stat("closed", 1);
      if (!loaded().base.count(rp)) vk::report.stat("unloaded", 1);
    }
    else
    {
      // Replace a library on disk while it is not loaded.
      for (auto& l : libs)
        if (l.kind == 2 && !loaded().base.count(real(l.path)))
        {
          version ^= 1;
          std::string t = l.path + ".tmp", s = l.path + (version ? ".v1" : ".v0");
          unlink(t.c_str());
          if (link(s.c_str(), t.c_str()) || rename(t.c_str(), l.path.c_str())) { std::printf("cannot replace\n"); std::exit(2); }
          // rename does nothing when both are links to the same file.
          unlink(t.c_str());
          history += " replace";
          vk::report.stat("replaced", 1);
        }
    }
    verify();
    vk::report.eval(history);
    if (r.chance(5))
    {
      home = r.chance(50);
      if (chdir(home ? dir.c_str() : "/")) std::exit(2);
    }
  }
  if (index < 2) vk::report.sample(history);
}

static void concurrent(uint64_t seed, uint64_t index, int ops, int nthreads)
{
  Rng r(seed * 1000003 + index);
  // The truth about everything, before the threads start.
  std::vector<std::pair<std::string, File*>> files;
  for (auto& l : libs) if (l.kind == 0) { files.push_back({real(l.path), &file(real(l.path))}); }
  std::string exe = real("/proc/self/exe");
  File* exefile = &file(exe);
  uintptr_t exebase = loaded().base[exe];
  history = " (concurrent)";
  static std::ostringstream sink;
  static std::mutex mutex;
  Debug(libcw_do.set_ostream(&sink, &mutex));
  if (r.chance(40)) Debug(libcw_do.on());
  bool elfutils = r.chance(30);
  std::vector<std::thread> ts;
  std::atomic<int> go{0};
  std::atomic<long> lookups{0}, opens{0};
  for (int t = 0; t < nthreads; ++t)
    ts.emplace_back([&, t] {
      Rng q(seed * 77777 + index * 100 + t);
      int kind = t == 0 ? 0 : t == 1 ? 1 : (int)q.below(3);
      if (elfutils && q.chance(50)) { Debug(dc::elfutils.on()); }
      if (q.chance(50)) { Debug(libcw_do.on()); }
      ++go;
      while (go.load() < nthreads) std::this_thread::yield();
      struct H { void* h; std::string real; uintptr_t base; };
      std::vector<H> mine;
      for (int i = 0; i < ops; ++i)
      {
        if (kind == 0 || q.chance(40))
        {
          auto a = exefile->answers.begin();
          std::advance(a, q.below(exefile->answers.size()));
          check_answer("dl:concurrent-exe", exebase + a->first, exe, a->second, history);
          ++lookups;
        }
        if (kind == 1 || q.chance(20))
        {
          if (mine.size() < 3 && q.chance(60))
          {
            Lib const& l = q.pick(libs);
            if (l.kind != 0) continue;
            std::string rp = real(l.path);
            if (void* h = dlopen(rp.c_str(), q.chance(50) ? RTLD_NOW : RTLD_LAZY))
            {
              struct link_map* m;
              dlinfo(h, RTLD_DI_LINKMAP, &m);
              mine.push_back({h, rp, (uintptr_t)m->l_addr});
              ++opens;
            }
            else vk::report.fail("dl:concurrent-open", dlerror());
          }
          else if (!mine.empty())
          {
            size_t k = q.below(mine.size());
            if (dlclose(mine[k].h)) vk::report.fail("dl:concurrent-close", dlerror());
            mine.erase(mine.begin() + k);
          }
        }
        for (auto& h : mine)
          if (q.chance(60))
          {
            File* f = nullptr;
            for (auto& x : files) if (x.first == h.real) f = x.second;
            auto a = f->answers.begin();
            std::advance(a, q.below(f->answers.size()));
            check_answer("dl:concurrent-lib", h.base + a->first, h.real, a->second, history);
            ++lookups;
          }
        if (kind == 2) Dout(dc::notice, "here " << Location((char*)__builtin_return_address(0) + libcwd::builtin_return_address_offset));
      }
      for (auto& h : mine) if (dlclose(h.h)) vk::report.fail("dl:concurrent-close", dlerror());
    });
  for (auto& t : ts) t.join();
  vk::report.stat("lookups", lookups);
  vk::report.stat("opened", opens);
  vk::report.eval(std::to_string(seed * 1000003 + index));
}

// Nothing but dlopen and dlclose, from the first moment: what is only initialized once may be used by a constructor while a library is being loaded.
static void burst(uint64_t seed, uint64_t index, int nthreads)
{
  history = " (burst)";
  std::vector<Lib const*> odd;
  for (auto& l : libs) if (l.name == "ctor" || l.name == "dtor") odd.push_back(&l);
  std::atomic<int> go{0};
  std::atomic<long> opens{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < nthreads; ++t)
    ts.emplace_back([&, t] {
      Rng q(seed * 77777 + index * 100 + t);
      ++go;
      while (go.load() < nthreads) ;
      for (int i = 0; i < 5; ++i)
      {
        Lib const& l = q.chance(60) ? *q.pick(odd) : q.pick(libs);
        if (l.kind != 0) continue;
        for (int k = q.below(2000); k--;) asm volatile("");
        void* h = dlopen(l.path.c_str(), q.chance(50) ? RTLD_NOW : RTLD_LAZY);
        if (!h) { vk::report.fail("dl:concurrent-open", dlerror()); continue; }
        ++opens;
        if (q.chance(30)) std::this_thread::yield();
        if (dlclose(h)) vk::report.fail("dl:concurrent-close", dlerror());
      }
    });
  for (auto& t : ts) t.join();
  // What is left must be known exactly.
  Loaded now = loaded();
  for (auto& l : libs)
  {
    std::string rp = real(l.path);
    auto it = now.base.find(rp);
    if (l.kind == 1 || it == now.base.end()) continue;
    auto& f = file(rp);
    for (int i = 0; i < 3; ++i)
    {
      auto a = f.answers.begin();
      std::advance(a, i);
      check_answer("dl:after-burst", it->second + a->first, rp, a->second, history);
    }
  }
  vk::report.stat("burst_opened", opens);
  vk::report.eval("burst " + std::to_string(seed * 1000003 + index));
}

// The CPU time of a process and whether one of its threads can run.
static bool progress(pid_t pid, unsigned long& ticks)
{
  std::ifstream f("/proc/" + std::to_string(pid) + "/stat");
  std::string l;
  std::getline(f, l);
  std::istringstream ss(l.substr(l.rfind(')') + 2));
  std::string state, x;
  unsigned long u = 0, k = 0;
  ss >> state;
  for (int i = 0; i < 10; ++i) ss >> x;
  ss >> u >> k;
  bool moved = u + k != ticks || state == "R" || state == "D";
  ticks = u + k;
  return moved;
}

int main(int argc, char** argv)
{
  dir = argv[1];
  setenv("VK_DIR", argv[1], 1);
  char mode = argv[2][0];
  uint64_t seed = vk::arg_u64(argc, argv, 3, 1), first = vk::arg_u64(argc, argv, 4, 0), cases = vk::arg_u64(argc, argv, 5, 1);
  int ops = vk::arg_u64(argc, argv, 6, 40), nthreads = vk::arg_u64(argc, argv, 7, 6);
  Debug(main_reached());
  static std::ostringstream sink;
  static std::mutex sink_mutex;
  Debug(libcw_do.set_ostream(&sink, &sink_mutex));
  read_libs();
  if (chdir(dir.c_str())) return 2;
  if (mode == 's') for (auto& l : libs) if (l.kind != 1) file(real(l.path));
  for (uint64_t i = first; i < first + cases; ++i)
  {
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
      if (mode == 's')
      {
        // A directory of its own, because files are replaced.
        sequential(seed, i, ops);
      }
      else if (mode == 'b') burst(seed, i, nthreads);
      else concurrent(seed, i, ops, nthreads);
#ifdef VK_TSAN
      vk::report.stat("libdw_calls", libdw_calls);
#endif
      std::printf("\n");
      vk::report.done();
      std::exit(0);
    }
    int st, idle = 0;
    unsigned long ticks = 0;
    for (int k = 1;; ++k)
    {
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w == pid) break;
      usleep(k < 500 ? 2000 : 20000);
      if (k % 50 == 0 && k >= 500) idle = progress(pid, ticks) ? 0 : idle + 1;
      // No thread did anything for 30 seconds.
      if (idle >= 30)
      {
        vk::report.fail("dl:deadlock", std::string("mode ") + mode + " case " + std::to_string(i) + ": all threads wait for each other");
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        std::printf("DONE\n");
        return 0;
      }
    }
    if (st)
    {
      std::printf("case %lu: status %d\n", (unsigned long)i, st);
      std::fflush(stdout);
      return WIFEXITED(st) ? WEXITSTATUS(st) : 77;
    }
  }
  std::printf("DONE\n");
  std::fflush(stdout);
  return 0;
}
