#!/bin/bash
# build_handles.sh OUTDIR [REPO]: the C++ handle classes of auto_test and the C
# library under them, with operator new/delete and the libc heap behind seams.
set -u
OUT=$1; REPO=${2:-/repo}; HERE=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT/ho" || exit 3
SAN="-O1 -g -fno-omit-frame-pointer -fno-builtin-malloc -fno-builtin-free -fno-builtin-calloc -fno-builtin-realloc -fsanitize=address -fsanitize-coverage=trace-pc-guard -I$REPO -I$HERE/sim -w"
{
  for f in $(cd "$REPO" && find src -name '*.c' | sort); do
    o=$OUT/ho/lib_$(echo $f | tr / _).o
    echo "clang $SAN -c $REPO/$f -o $o && objcopy --redefine-syms=$HERE/sim/redefine.txt $o"
  done
  for f in $(cd "$REPO" && find auto_test -name '*.cpp' | sort); do
    o=$OUT/ho/at_$(echo $f | tr / _).o
    echo "clang++ -std=c++17 $SAN -c $REPO/$f -o $o && objcopy --redefine-syms=$HERE/sim/redefine.txt --redefine-syms=$HERE/sim/redefine_cxx.txt $o"
  done
  o=$OUT/ho/at_zz_adapter.o
  echo "clang++ -std=c++17 $SAN -c $HERE/sim/hadapter.cpp -o $o && objcopy --redefine-syms=$HERE/sim/redefine.txt --redefine-syms=$HERE/sim/redefine_cxx.txt $o"
  for f in rt hnew handles; do echo "clang++ -std=c++17 -O1 -g -c $HERE/sim/$f.cpp -o $OUT/ho/h_$f.o"; done
} > "$OUT/hcmds"
xargs -P 8 -d '\n' -n 1 bash -c < "$OUT/hcmds" > "$OUT/hbuild.log" 2>&1 || { cat "$OUT/hbuild.log" >&2; exit 3; }
clang++ -fsanitize=address -g "$OUT"/ho/*.o -lgtest -lm -lpthread -o "$OUT/handles" >> "$OUT/hbuild.log" 2>&1 || { cat "$OUT/hbuild.log" >&2; exit 3; }
