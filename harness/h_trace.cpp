// Runs a sequence of operations, and reports the object files that the dynamic loader has loaded before and after each of them;
// what libcwd writes to stderr in between is judged by vk/props/process.py.
// args: operations: +o -o (libcw_do on/off), +e -e (dc::elfutils), L<path> / N<path> / G<path> (dlopen), C<n> (dlclose), =n (write to dc::notice)
#include "sys.h"
#include "debug.h"
#include "vk.h"
#include <dlfcn.h>
#include <iostream>
#include <link.h>
#include <sys/resource.h>
#include <unistd.h>

static int show(dl_phdr_info* info, size_t, void*)
{
  std::printf("OBJ %lx %s", (unsigned long)info->dlpi_addr, info->dlpi_name && *info->dlpi_name ? info->dlpi_name : "-");
  for (int i = 0; i < info->dlpi_phnum; ++i)
    if (info->dlpi_phdr[i].p_type == PT_LOAD && info->dlpi_phdr[i].p_memsz)
      std::printf(" %lx:%lx:%x", (unsigned long)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr),
          (unsigned long)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr + info->dlpi_phdr[i].p_memsz), info->dlpi_phdr[i].p_flags);
  std::printf("\n");
  return 0;
}

static void section(int i, char const* what)
{
  char b[200];
  int n = std::snprintf(b, sizeof b, "\n@@ %d\n", i);
  if (write(2, b, n) != n) std::_Exit(3);
  std::printf("SECTION %d %s do=%d elf=%d\n", i, what, (int)libcwd::libcw_do.is_on(libcwd::_private_::ThreadSpecificData::instance()), (int)libcwd::channels::dc::elfutils.is_on());
  dl_iterate_phdr(show, nullptr);
  std::fflush(stdout);
}

int main(int argc, char** argv)
{
  if (write(2, "\n@@ main\n", 9) != 9) std::_Exit(3);
  rlimit r;
  getrlimit(RLIMIT_CORE, &r);
  std::printf("CORE %lu %lu\n", (unsigned long)r.rlim_cur, (unsigned long)r.rlim_max);
  Debug(main_reached());
  section(0, "start");
  std::vector<void*> handles;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    std::string ret = "-";
    char c = a[0];
    if (a == "+o") Debug(libcw_do.on());
    else if (a == "-o") Debug(libcw_do.off());
    else if (a == "+e") Debug(dc::elfutils.on());
    else if (a == "-e") Debug(dc::elfutils.off());
    else if (c == '=') { Debug(if (!dc::notice.is_on()) dc::notice.on()); Dout(dc::notice, "vk line"); }
    else if (c == 'L' || c == 'N' || c == 'G')
    {
      void* h = dlopen(a.c_str() + 1, (c == 'N' ? RTLD_NOW : RTLD_LAZY) | (c == 'G' ? RTLD_GLOBAL : 0));
      handles.push_back(h);
      ret = h ? "1" : "0";
    }
    else if (c == 'C')
    {
      size_t n = std::atoi(a.c_str() + 1);
      if (n < handles.size() && handles[n]) { ret = std::to_string(dlclose(handles[n])); handles[n] = nullptr; }
    }
    section(i, ret.c_str());
  }
  std::printf("DONE\n");
  std::fflush(stdout);
  std::_Exit(0);
}
