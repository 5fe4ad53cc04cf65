#!/bin/bash
# build_sim.sh OUTDIR [REPO]: compile the library's sources as they are in the
# working tree, put every libc call that allocates, reads a clock, draws
# randomness or locks behind the simulator's seams, and link the simulator.
# SIM_DEFS: more compiler options for the library's sources.
set -u
OUT=$1; REPO=${2:-/repo}; HERE=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT/o" || exit 3
CC=clang; CXX=clang++
LIBF="-O1 -g -fno-omit-frame-pointer -fno-builtin-malloc -fno-builtin-free -fno-builtin-calloc -fno-builtin-realloc -fsanitize=address -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores -I$REPO -I$HERE/sim -w ${SIM_DEFS:-}"
{
  for f in $(cd "$REPO" && find src -name '*.c' | sort); do
    echo "$CC $LIBF -c $REPO/$f -o $OUT/o/lib_$(echo $f | tr / _).o && objcopy --redefine-syms=$HERE/sim/redefine.txt $OUT/o/lib_$(echo $f | tr / _).o"
  done
  echo "$CC $LIBF -c $HERE/sim/adapter.c -o $OUT/o/lib_zz_adapter.o && objcopy --redefine-syms=$HERE/sim/redefine.txt $OUT/o/lib_zz_adapter.o"
  for f in rt model plan gen exec judge main; do
    echo "$CXX -std=c++17 -O1 -g -c $HERE/sim/$f.cpp -o $OUT/o/h_$f.o"
  done
} > "$OUT/cmds"
xargs -P 8 -d '\n' -n 1 bash -c < "$OUT/cmds" > "$OUT/build.log" 2>&1 || { cat "$OUT/build.log" >&2; exit 3; }
$CXX -fsanitize=address -g "$OUT"/o/lib_*.o "$OUT"/o/h_*.o -lm -lpthread -o "$OUT/sim" >> "$OUT/build.log" 2>&1 || { cat "$OUT/build.log" >&2; exit 3; }
