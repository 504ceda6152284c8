// A library with channels that are created when it is loaded.
#include "sys.h"
#include "debug.h"
extern "C" {
libcwd::Channel module_a("MODULE_A");
libcwd::Channel module_b("WARNING");
libcwd::Channel module_hidden("MODHIDDEN", false);
}
