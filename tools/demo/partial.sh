# Links a demonstration with what build.sh made; use: . "$D/partial.sh"; program demo.cpp
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
program()
{
  g++ -std=c++20 -w -g -DCWDEBUG -I"$R/_build/include" -I"$R/include" -I"$R" -I"$D/shim" -I"$R/_build/include/libcwd" "$D/$1" -o "$T/demo" "$R/_build/libcwd_partial.a" "$R/_build/libutils_partial.a" || exit 3
}
