// Reads lines "<kind>\t<mangled>" (kind s: symbol, t: type); prints for each line
// "<kind>\t<mangled>\t<libcwd>\t<__cxa_demangle or !>". Besides the comparison that is made
// outside, checks here that results are appended, and are the same from any thread and order.
#include "vk.h"
#include <libcwd/demangle.h>
#include <cxxabi.h>
#include <iostream>
#include <thread>
#include <atomic>
#include <algorithm>
#include <random>

static std::string lib(char kind, std::string const& in, std::string out = {})
{
  vk::Exact e(in, true);
  if (kind == 't')
    libcwd::demangle_type(e.p, out);
  else
    libcwd::demangle_symbol(e.p, out);
  return out;
}

int main(int argc, char** argv)
{
  vk::Rng rng(vk::arg_u64(argc, argv, 1, 1));
  int threads = vk::arg_u64(argc, argv, 2, 4);
  std::vector<std::pair<char, std::string>> in;
  std::string l;
  while (std::getline(std::cin, l))
    if (l.size() > 2)
      in.emplace_back(l[0], l.substr(2));
  std::vector<std::string> res(in.size());
  for (size_t i = 0; i < in.size(); ++i)
  {
    std::string pre = i % 3 == 0 ? "" : i % 3 == 1 ? "x" : std::string(100, 'y') + '>';
    std::string r = lib(in[i].first, in[i].second, pre);
    if (r.compare(0, pre.size(), pre) != 0)
      vk::report.fail("not-appended", vk::esc(in[i].second) + " -> " + vk::esc(r));
    else
      r.erase(0, pre.size());
    res[i] = r;
    int st;
    char* c = abi::__cxa_demangle(in[i].second.c_str(), nullptr, nullptr, &st);
    std::printf("R %c\t%s\t%s\t%s\n", in[i].first, in[i].second.c_str(), r.c_str(), c ? c : "!");
    std::free(c);
  }
  // Again, from several threads at once and in different orders.
  std::vector<std::thread> ts;
  std::vector<uint64_t> seeds;
  for (int t = 0; t < threads; ++t) seeds.push_back(rng.next());
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      std::vector<size_t> order(in.size());
      for (size_t i = 0; i < order.size(); ++i) order[i] = i;
      std::mt19937_64 g(seeds[t]);
      std::shuffle(order.begin(), order.end(), g);
      for (size_t i : order)
        if (lib(in[i].first, in[i].second) != res[i])
          vk::report.fail("not-repeatable", vk::esc(in[i].second) + " gave " + vk::esc(res[i]) + " and " +
              vk::esc(lib(in[i].first, in[i].second)));
    });
  for (auto& t : ts) t.join();
  vk::report.stat("repeated_from_threads", (long long)in.size() * threads);
  return vk::report.done();
}
