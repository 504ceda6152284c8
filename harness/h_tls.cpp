// Debug output from the destructor of a thread_local object, which may run before or after libcwd's own cleanup of the thread.
// args: order (0: libcwd is used before the object is constructed; 1: after) threads
#include "script.h"

static long written;
static std::mutex wm;

struct Buf : std::streambuf
{
  std::string line;
  int_type overflow(int_type c) override { put((char)c); return traits_type::not_eof(c); }
  std::streamsize xsputn(char const* p, std::streamsize n) override { for (long i = 0; i < n; ++i) put(p[i]); return n; }
  void put(char c) { line += c; if (c == '\n') { if (line == "NOTICE  : destructor\n") ++written; else report.fail("line", "written: " + esc(line)); line.clear(); } }
};
static Buf buf;
static std::ostream os(&buf);

struct A
{
  int x = 0;
  ~A()
  {
    Debug(libcwd::libcw_do.on());
    if (!libcwd::channels::dc::notice.is_on()) Debug(libcwd::channels::dc::notice.on());
    Dout(dc::notice, "destructor");
    Debug(libcwd::libcw_do.off());
  }
};
static thread_local A a;

int main(int argc, char** argv)
{
  int order = arg_u64(argc, argv, 1, 0), n = arg_u64(argc, argv, 2, 10);
  setenv("LIBCWD_RCFILE_NAME", "/dev/null", 0);
  Debug(libcwd::libcw_do.set_ostream(&os, &wm));
  Debug(libcwd::libcw_do.on());
  for (int i = 0; i < n; ++i)
    std::thread([&] {
      if (order) a.x = 1;
      if (i % 2) { Debug(libcwd::channels::dc::notice.on()); }
      Debug(libcwd::libcw_do.margin().assign(std::string("other margin")));
      Debug(libcwd::libcw_do.margin().assign(std::string()));
      a.x = 2;
    }).join();
  if (written != n) report.fail("lost", std::to_string(written) + " of " + std::to_string(n) + " lines were written");
  report.eval("order " + std::to_string(order));
  return report.done();
}
