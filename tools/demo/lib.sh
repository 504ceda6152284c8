# Builds all of libcwd from the sources in the current directory into $T/libcwd.a; use: . "$D/lib.sh"; program demo.cpp
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
CXX=${CXX:-g++}
: ${CF=-O1 -g}
FLAGS="-std=c++20 -w -fPIC -DCWDEBUG -include $T/version.h -I$R/_build/include -I$R/include -I$R -I$D/shim -I$R/_build/include/libcwd $CF"
echo '#define VERSION "2.0.1"' > "$T/version.h"
export LIBCWD_NO_STARTUP_MSGS=1 LIBCWD_RCFILE_NAME=/dev/null
library()
{
  mkdir -p "$T/obj"
  for f in $(grep -ho '"[A-Za-z0-9_./-]*\.c[xp]*"' "$R/src/CMakeLists.txt" | tr -d '"'); do echo "$R/src/$f"; done > "$T/list"
  for f in $(grep -ho '"[A-Za-z0-9_./-]*\.c[xp]*"' "$R/src/utils/CMakeLists.txt" | tr -d '"'); do echo "$R/src/utils/$f"; done >> "$T/list"
  xargs -a "$T/list" -P 8 -I{} sh -c "$CXX $FLAGS -c {} -o $T/obj/\$(basename {}).o" || exit 3
  ar rcs "$T/libcwd.a" "$T"/obj/*.o || exit 3
}
program()
{
  $CXX $FLAGS "$D/$1" -o "$T/demo" -Wl,--whole-archive "$T/libcwd.a" -Wl,--no-whole-archive -rdynamic -ldw -lelf -lpthread -ldl || exit 3
}
