#!/bin/bash
# Builds the simulator from /repo's current working tree: build.sh [pasm|eol|mix|all]
# Output: $VERIF_BUILD (default /verif/build)/sim_pasm and sim_eol
set -e
cd "$(dirname "$0")/.."
V=$PWD
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/build}
WHAT=${1:-all}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
CXX=/usr/bin/g++
SRC=$REPO/CMakePasm/source
J=${VERIF_JOBS:-8}
mkdir -p "$B/h" "$B/t"
# the code under test: shipped flags (RelWithDebInfo: -O2 -g -DNDEBUG, C++17), plus the block counter
TFLAGS="-O2 -g1 -DNDEBUG -std=c++17 -w -fno-pie -I. -fsanitize-coverage=trace-pc -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=3"
HFLAGS="-O1 -g1 -std=c++20 -Wall -Wno-unused-result -Wno-attributes -Wno-format-truncation -Wno-restrict -Wno-misleading-indentation -fno-pie -U_FORTIFY_SOURCE"
rules=$B/Makefile
WRAPS=$(sed -n -e 's/^WRAP([^,]*, *\([A-Za-z0-9_]*\)[,)].*/\1/p' -e 's/.*__real_\([a-z0-9_]*\)(.*\.\.\.);.*/\1/p' -e 's/^extern "C" struct dirent[64]*\* __real_\([a-z0-9]*\)(DIR\*);/\1/p' sim/simrt.cc | sort -u)
WL=""; for w in $WRAPS; do WL="$WL -Wl,--wrap=$w"; done
HSRC="simrt scenario gen oracle props driver"
{
echo "all: $B/sim_pasm $B/sim_eol $B/sim_mix"
echo "pasm: $B/sim_pasm"
echo "eol: $B/sim_eol"
echo "mix: $B/sim_mix"
HO=""
for h in $HSRC; do echo "$B/h/$h.o: sim/$h.cc $(echo sim/*.h)"; echo "	$CXX $HFLAGS -c sim/$h.cc -o \$@"; HO="$HO $B/h/$h.o"; done
# engine: every source the project compiles, whatever its name
TO=""
# keep flex/bison output names the sources expect
rm -rf "$B/t/src.new"; mkdir -p "$B/t/src.new"
cp "$SRC"/*.cc "$SRC"/*.h "$SRC"/*.l "$SRC"/*.y "$B/t/src.new/"
for f in "$SRC"/*.cc; do n=$(basename "$f" .cc); TO="$TO $B/t/$n.o"
  echo "$B/t/$n.o: $B/t/src.stamp"; echo "	cd $B/t/src && $CXX $TFLAGS -c $n.cc -o \$@"; done
for n in pasm.tab pasm.flex; do TO="$TO $B/t/$n.o"; echo "$B/t/$n.o: $B/t/src.stamp"; echo "	cd $B/t/src && $CXX $TFLAGS -c $n.cc -o \$@"; done
echo "$B/t/pasm_all.o: $TO"
echo "	ld -r --force-group-allocation -o \$@.tmp $TO && objcopy --redefine-sym main=target_main --keep-global-symbol=target_main \$@.tmp \$@ && rm \$@.tmp"
echo "$B/sim_pasm: $B/t/pasm_all.o $HO"
echo "	$CXX -static -no-pie -o \$@ $HO $B/t/pasm_all.o $WL"
echo "$B/t/eol_all.o: $B/t/eol.cc"
echo "	$CXX $TFLAGS -c $B/t/eol.cc -o \$@.tmp1 && ld -r --force-group-allocation -o \$@.tmp \$@.tmp1 && objcopy --redefine-sym main=target_main --keep-global-symbol=target_main \$@.tmp \$@ && rm \$@.tmp \$@.tmp1"
echo "$B/sim_eol: $B/t/eol_all.o $HO"
echo "	$CXX -static -no-pie -o \$@ $HO $B/t/eol_all.o $WL"
# both programs in one simulator, for runs at the same time
echo "$B/t/eol_mix.o: $B/t/eol_all.o"
echo "	objcopy --redefine-sym target_main=eol_main $B/t/eol_all.o \$@"
echo "$B/sim_mix: $B/t/pasm_all.o $B/t/eol_mix.o $HO"
echo "	$CXX -static -no-pie -o \$@ $HO $B/t/pasm_all.o $B/t/eol_mix.o $WL"
} > "$rules"
# refresh the private copy of the sources only when their content changed
if ! diff -rq "$B/t/src.new" "$B/t/src.orig" >/dev/null 2>&1; then
  rm -rf "$B/t/src.orig" "$B/t/src"; mv "$B/t/src.new" "$B/t/src.orig"; cp -r "$B/t/src.orig" "$B/t/src"
  (cd "$B/t/src" && bison -rall --defines=pasm.tab.h -o pasm.tab.cc pasm.y 2>/dev/null && flex -o pasm.flex.cc pasm.l 2>/dev/null)
  touch "$B/t/src.stamp"
else rm -rf "$B/t/src.new"; fi
cmp -s "$REPO/CMakePasm/eolconvert/eolconvert.cc" "$B/t/eol.cc" || cp "$REPO/CMakePasm/eolconvert/eolconvert.cc" "$B/t/eol.cc"
make -s -f "$rules" -j"$J" $WHAT
