#!/bin/bash
# Builds the simulator from /repo's working tree and /verif/sim into $OUT (default /verif/.build).
# Real sources of all programs are compiled unchanged; their libc I/O, time, memory and process
# symbols are renamed (objcopy) to the simulator's sim_* functions.
set -e
export LANG=C LC_ALL=C
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${OUT:-$HERE/../.build}
mkdir -p "$OUT"
OUT=$(cd "$OUT" && pwd)
exec 9>"$OUT/lock"; flock 9
JOBS=${JOBS:-8}
SRC=$REPO/src
hash_all() { (cd "$SRC" && find . -type f \( -name '*.c' -o -name '*.h' \) -print0 | sort -z | xargs -0 sha256sum; cd "$HERE" && sha256sum *.cpp *.hpp build.sh; gcc --version | head -1) | sha256sum | cut -d' ' -f1; }
H=$(hash_all)
if [ -x "$OUT/simbin" ] && [ "$(cat "$OUT/hash" 2>/dev/null)" = "$H" ]; then exit 0; fi
rm -f "$OUT/hash"
# ---- harness objects (cached by content)
HH=$( (cd "$HERE"; sha256sum *.hpp build.sh; gcc --version | head -1) | sha256sum | cut -c1-16)
mkdir -p "$OUT/h"
CXX="g++ -std=gnu++17 -O2 -fno-pie -w"
todo=()
for f in "$HERE"/*.cpp; do
  b=$(basename "$f" .cpp); k=$(sha256sum < "$f" | cut -c1-16)-$HH
  if [ ! -f "$OUT/h/$b-$k.o" ]; then rm -f "$OUT/h/$b"-*.o; todo+=("$f $OUT/h/$b-$k.o"); fi
done
printf '%s\n' "${todo[@]}" | { grep . || true; } | xargs -r -P "$JOBS" -L1 sh -c "$CXX"' -c $0 -o $1.tmp && mv $1.tmp $1'
# remove stale harness objects
for o in "$OUT"/h/*.o; do b=$(basename "$o"); b=${b%-*-*.o}; [ -f "$HERE/$b.cpp" ] || rm -f "$o"; done
# ---- guest objects
rm -rf "$OUT/g"; mkdir -p "$OUT/g/o"
CC="gcc -std=gnu11 -O1 -g0 -w -fno-pie -fno-pic -fno-common -fno-builtin -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=2 -fstack-protector-strong -fno-strict-aliasing -fcf-protection=none -DPLATFORM_LINUX -D__LINUX__ -DMSGBASE_MSG -DMSGBASE_JAM -DNODELIST_CMNL -DNODELIST_V7P -I ."
cd "$SRC"
ls crashmail/*.c shared/*.c oslib_linux/*.c cmnllib/*.c jamlib/*.c tools/*.c | xargs -P "$JOBS" -I{} sh -c "$CC"' -c {} -o '"$OUT"'/g/o/$(echo {} | tr / _).o'
cd "$OUT/g"
ar rcs libsh.a o/shared_*.o; ar rcs libos.a o/oslib_linux_*.o; ar rcs libcmnl.a o/cmnllib_*.o; ar rcs libjam.a o/jamlib_*.o
nm --defined-only "$OUT"/h/sim-*.o | awk '$3 ~ /^sim_/ {print substr($3,5), $3}' > redefs
: > progs
{
  echo '#include "sim.hpp"'
  echo 'extern "C" {'
} > progs.cpp
PROGS="crashmail $(cd "$SRC/tools" && ls *.c | sed 's/\.c$//')"
for p in $PROGS; do
  if [ $p = crashmail ]; then objs=$(ls o/crashmail_*.o); else objs=o/tools_$p.c.o; fi
  ld -r -z muldefs -o $p.r.o $objs --start-group libsh.a libos.a libcmnl.a libjam.a --end-group
  { cat redefs; echo "main prog_${p}_main"; } > redefs.$p
  objcopy --redefine-syms=redefs.$p $p.r.o $p.1.o
  # an anchor object makes sure both sections exist
  echo "int ${p}_adat __attribute__((section(\"${p}_data\")))=1; int ${p}_abss __attribute__((section(\"${p}_bss\")))=0;" > anchor.c
  gcc -fno-pie -c anchor.c -o $p.anchor.o
  objcopy --keep-global-symbol=prog_${p}_main --rename-section .data=${p}_data --rename-section .bss=${p}_bss,alloc,load,contents,data $p.1.o $p.o
  echo "int prog_${p}_main(int,char**); extern char __start_${p}_data[],__stop_${p}_data[],__start_${p}_bss[],__stop_${p}_bss[];" >> progs.cpp
done
echo '}' >> progs.cpp
echo 'ProgInfo gProgs[]={' >> progs.cpp
for p in $PROGS; do echo "{\"$p\",prog_${p}_main,__start_${p}_data,__stop_${p}_data,__start_${p}_bss,__stop_${p}_bss}," >> progs.cpp; done
echo '}; int gNProgs=sizeof gProgs/sizeof *gProgs;' >> progs.cpp
g++ -std=gnu++17 -O1 -fno-pie -w -I "$HERE" -c progs.cpp -o progs.o
# symbols that still resolve to the real libc
for p in $PROGS; do nm -u $p.o | awk '{print $2}'; done | grep -v '^sim_' | sort -u > libc_passthrough.txt
g++ -no-pie -o "$OUT/simbin.tmp" "$OUT"/h/*.o progs.o $(for p in $PROGS; do echo $p.o $p.anchor.o; done) -Wl,-z,muldefs
cp libc_passthrough.txt "$OUT/libc_passthrough.txt"
mv "$OUT/simbin.tmp" "$OUT/simbin"
rm -rf "$OUT/g"
echo "$H" > "$OUT/hash"
