// Main program of the generated type_info_of programs; see vk/gen/types.py.
#include "types.h"
#include <libcwd/demangle.h>
#include <algorithm>
#include <atomic>
#include <barrier>
#include <cxxabi.h>
#include <dlfcn.h>
#include <thread>

using Early = std::vector<std::pair<size_t, Seen>>;
std::vector<Row> rows0();
std::vector<Row> rows1();
std::vector<Row> own0();
std::vector<Row> own1();
Early& early0();
Early& early1();

static std::map<std::string, Seen> first;

static void same(Row const& r, Seen const& s, char const* when)
{
  char const* unit = std::strstr(r.what, " in ");       // Types without linkage.
  std::string key = std::string(r.object ? "o " : "x ") + r.type + (unit ? unit : "");
  auto it = first.find(key);
  if (it == first.end())
  {
    first.emplace(key, s);
    return;
  }
  Seen const& f = it->second;
  if (f.t != s.t)
    vk::report.fail("identity", std::string(r.what) + ": another TypeInfo object " + when);
  else if (f.name != s.name || f.dem != s.dem || f.size != s.size || f.ref != s.ref)
    vk::report.fail("changed", std::string(r.what) + ": values changed " + when);
}

int main(int argc, char** argv)
{
  uint64_t seed = vk::arg_u64(argc, argv, 1, 1);
  int nthreads = vk::arg_u64(argc, argv, 2, 8);
  char const* module = argc > 3 ? argv[3] : nullptr;
  vk::Rng rng(seed);
  std::vector<std::vector<Row>> sets = { rows0(), rows1(), own0(), own1() };
  for (auto const* e : { &early0(), &early1() })
    for (auto const& p : *e)
      same(sets[e == &early1()][p.first], p.second, "before main");
  vk::report.stat("before_main", early0().size() + early1().size());
  std::vector<Row> all;
  for (auto const& s : sets)
    all.insert(all.end(), s.begin(), s.end());
  // First use by several threads at once.
  std::vector<std::vector<Seen>> seen(nthreads, std::vector<Seen>(all.size()));
  {
    std::barrier start(nthreads);
    std::vector<std::thread> threads;
    std::vector<size_t> order(all.size());
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
    for (int t = 0; t < nthreads; ++t)
      threads.emplace_back([&, t] {
        start.arrive_and_wait();
        // Blocks of rows are visited at the same time by all threads; half of them in opposite order.
        for (size_t b = 0; b < order.size(); b += 4)
        {
          for (size_t j = 0; j < 4; ++j)
          {
            size_t i = b + ((t & 1) ? 3 - j : j);
            if (i < order.size())
              seen[t][order[i]] = look(all[order[i]]);
          }
        }
      });
    for (auto& t : threads) t.join();
  }
  for (int t = 0; t < nthreads; ++t)
    for (size_t i = 0; i < all.size(); ++i)
      same(all[i], seen[t][i], "in another thread");
  vk::report.stat("thread_uses", nthreads * all.size());
  if (module)
  {
    void* h = dlopen(module, RTLD_NOW | RTLD_LOCAL);
    if (!h) { std::fprintf(stderr, "%s\n", dlerror()); return 3; }
    auto rows2 = (void (*)(std::vector<Row>*, Early*))dlsym(h, "module_rows");
    if (!rows2) { std::fprintf(stderr, "%s\n", dlerror()); return 3; }
    std::vector<Row> r;
    Early e;
    rows2(&r, &e);
    for (auto const& p : e)
      same(r[p.first], p.second, "in the constructors of a library");
    for (auto const& row : r)
      same(row, look(row), "in a library");
    all.insert(all.end(), r.begin(), r.end());
    vk::report.stat("library_uses", r.size());
  }
  for (size_t i = 0; i < all.size(); ++i)
  {
    Row const& r = all[i];
    Seen s = look(r);
    same(r, s, "later");
    std::string what = r.what, name = r.name();
    if (s.size != r.size)
      vk::report.fail(r.object ? "object-size" : "size", what + ": size() is " + std::to_string(s.size) + ", sizeof is " + std::to_string(r.size));
    if (s.ref != r.ref)
      vk::report.fail(r.object ? "object-ref_size" : "ref_size", what + ": ref_size() is " + std::to_string(s.ref) + ", expected " + std::to_string(r.ref));
    if (name != s.name)
      vk::report.fail(r.object ? "object-name" : "name", what + ": name() is " + s.name + ", expected " + name);
    std::string ours;
    libcwd::demangle_type(name.c_str(), ours);
    if (ours != s.dem)
      vk::report.fail("demangled", what + ": demangled_name() is " + s.dem + ", demangle_type gives " + ours);
    int status;
    char* d = abi::__cxa_demangle(name.c_str(), nullptr, nullptr, &status);
    std::printf("R %s\t%s\t%s\t%s\n", r.what, name.c_str(), s.dem, status == 0 ? d : "!");
    std::free(d);
    vk::report.eval(r.type + (r.object ? "o" : "x"), r.type.size() > 5);
  }
  auto const& u = libcwd::unknown_type_info_c;
  if (u.size() != 0 || u.ref_size() != 0 || u.name() || std::string("<unknown type>") != u.demangled_name())
    vk::report.fail("unknown", "unknown_type_info_c is not as documented");
  return vk::report.done();
}
