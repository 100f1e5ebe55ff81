#!/bin/bash
# cwd: /repo.  Builds the library from its sources against a small stand-in for
# ForestDB (files beside this script) and runs the demonstration.
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
F="-std=c++17 -pthread -w -O0 -DNDEBUG -DLOGGER_H=$H/nolog.h -I$H/fdb -I$H -I$R/include -I$R/src -I$R/tools -I$R/tests"
mkdir "$W/o" "$W/run"
( ls "$R"/src/*.cc | grep -v /logger.cc; echo "$H/fdb/forestdb_standin.cc"; echo "$H/demo.cc" ) |
  xargs -P8 -I{} sh -c 'g++ '"$F"' -c {} -o '"$W"'/o/$(basename {} .cc).o || exit 255' || exit 2
g++ -pthread "$W"/o/*.o -ldl -o "$W/demo" || exit 2
cd "$W/run" && timeout 100 "$W/demo"
