#pragma once
#include "sys.h"
#include "debug.h"
#include "libcwd/type_info.h"
#include "sink.h"
#include <iostream>
#include <thread>
#include <mutex>
#include <cstring>
#include <string>
#include <cstdlib>
namespace vk {
inline constinit std::mutex mutex;
// Every constructor or destructor may be the first one that writes debug output.

inline void ready()
{
  if (debug_on == 0)
  {
    libcwd::initialize();
    Debug(libcw_do.set_ostream(&sink(), &mutex));
    Debug(libcw_do.on());
    Debug(dc::notice.on());
    debug_on = 1;
    notice_on = true;
  }
}
template<typename T> void type_check(char const* name)
{
  event(6);
  char const* n = libcwd::type_info_of<T>().demangled_name();
  if (!n || std::strcmp(n, name)) fail("type_info", n ? n : "(null)");
  if (libcwd::type_info_of<T>().size() != sizeof(T)) fail("type_info_size", name);
}
}
