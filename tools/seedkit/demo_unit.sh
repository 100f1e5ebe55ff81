#!/bin/bash
# cwd: /repo.  Compiles the sources under test together with demo.cc and runs it.
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir "$W/run"
S=""; for s in @SRCS@; do S="$S $R/src/$s"; done
g++ -std=c++17 -pthread -w -O1 -DNDEBUG -DLOGGER_H=$H/nolog.h -I$H -I$R/include -I$R/src -I$R/tools -I$R/tests \
  "$H/demo.cc" $S -ldl -o "$W/demo" || exit 2
cd "$W/run" && timeout 100 "$W/demo"
