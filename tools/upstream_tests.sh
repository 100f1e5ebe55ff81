#!/bin/bash
# Conformance of the ForestDB stand-in: builds the project's own ForestDB-dependent
# tests (which /opt/vp cannot build) against the stand-in and runs them.
# usage: upstream_tests.sh [workdir]      (not part of any check)
W=${1:-/tmp/upstream_tests}
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$W/o" "$W/t" "$W/run"
F="-std=c++17 -O1 -g -pthread -w -I$V/fdb -I/repo/include -I/repo/src -I/repo/tools -I/repo/tests -I/repo/tests/jungle -DLOGGER_H=/repo/src/logger.h"
ls /repo/src/*.cc | xargs -P8 -I{} sh -c 'g++ '"$F"' -c {} -o '"$W"'/o/$(basename {} .cc).o'
g++ $F -c "$V/fdb/forestdb_standin.cc" -o "$W/o/forestdb_standin.o" || exit 2
rm -f "$W/lib.a"; ar rcs "$W/lib.a" "$W"/o/*.o
ls /repo/tests/jungle/*_test.cc /repo/tests/unit/*_test.cc | xargs -P8 -I{} sh -c \
  'g++ '"$F"' {} '"$W"'/lib.a -ldl -lz -o '"$W"'/t/$(basename {} .cc) 2>'"$W"'/t/$(basename {} .cc).err'
for t in "$W"/t/*_test; do
  n=$(basename $t); [ $n = large_test ] && continue
  mkdir -p "$W/run/$n"; (cd "$W/run/$n"; timeout 300 $t --abort-on-failure=false > out.txt 2>&1; echo "$n rc=$? pass=$(grep -c PASS out.txt) fail: $(grep -a FAILED out.txt | head -5 | tr '\n' ';')")
done
