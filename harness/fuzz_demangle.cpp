// libFuzzer target: any byte string through both demangling functions.
#include <libcwd/demangle.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <string>
#include <unistd.h>

static void bad(char const* what, char const* in, std::string const& a)
{
  std::fprintf(stderr, "VKFAIL %s\ninput: %s\noutput: %.2000s\n", what, in, a.c_str());
  std::abort();
}

extern "C" int LLVMFuzzerTestOneInput(unsigned char const* data, size_t size)
{
  size_t n = strnlen((char const*)data, size);
  bool type = n && (data[0] & 1);
  size_t skip = n ? 1 : 0;
  n -= skip;
  // Exactly the string and its terminator, so that reading further is seen.
  char* in = (char*)std::malloc(n + 1);
  std::memcpy(in, data + skip, n);
  in[n] = 0;
  std::string prefix(skip && (data[0] & 2) ? "" : "<prefix>"), out(prefix);
  if (type)
    libcwd::demangle_type(in, out);
  else
    libcwd::demangle_symbol(in, out);
  if (out.compare(0, prefix.size(), prefix) != 0)
    bad("the old contents of the output string were changed", in, out);
  if (out.find('\0') != std::string::npos)
    bad("a NUL character was appended", in, out);
  if (!type && (n < 2 || in[0] != '_' || in[1] != 'Z') && std::strncmp(in, "_GLOBAL_", 8) != 0 && out != prefix + in)
    bad("a string that is not a mangled symbol was changed", in, out);
  std::string again;
  if (type)
    libcwd::demangle_type(in, again);
  else
    libcwd::demangle_symbol(in, again);
  if (prefix + again != out)
    bad("the second call appended something else", in, out + " / " + again);
  std::free(in);
  return 0;
}
