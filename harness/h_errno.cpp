// P02: strerrno against glibc's strerrorname_np.
#include "vk.h"
#include <libcwd/strerrno.h>
#include <cerrno>
#include <climits>
using namespace vk;
int main(int argc, char** argv)
{
  Rng r(arg_u64(argc, argv, 1, 1));
  uint64_t cases = arg_u64(argc, argv, 2, 1000);
  std::map<std::string, unsigned> seen;
  auto one = [&](unsigned v) {
    errno = 4242;
    char const* s = libcwd::strerrno(v);
    if (errno != 4242) report.fail("errno changed", std::to_string(v));
    if (!s) { report.fail("null", std::to_string(v)); return; }
    std::string got(s);
    char const* w = v <= INT_MAX ? strerrorname_np((int)v) : nullptr;
    std::string want = v == 0 ? got : w ? w : "UNKNOWN ERROR";
    if (v == (unsigned)EAGAIN && got == "EWOULDBLOCK") want = got;
    if (v == (unsigned)EDEADLK && got == "EDEADLOCK") want = got;
    if (v == (unsigned)EOPNOTSUPP && got == "ENOTSUP") want = got;
    // Where the platform has no name (41 and 58 on Linux) any name that is not another errno's will do.
    if (!w && v && v < 134) want = seen.count(got) && got != "UNKNOWN ERROR" ? "UNKNOWN ERROR" : got;
    if (got != want)
      report.fail("name:" + std::to_string(v < 200 ? v : 200), "errno " + std::to_string(v) + " is called " + got + ", the platform says " + want);
    if (v && v < 200) seen[got] = v;
    report.eval(std::to_string(v), w != nullptr);
  };
  for (unsigned v = 0; v < 5000; ++v) one(v);
  for (uint64_t i = 0; i < cases; ++i) one((unsigned)(r.next() >> r.below(32)));
  one(UINT_MAX); one(INT_MAX); one((unsigned)INT_MIN); one((unsigned)-EINVAL);
  report.sample("EAGAIN=" + std::string(libcwd::strerrno(EAGAIN)));
  return report.done();
}
