#!/bin/bash
# cwd: the repository.  Builds demo.cpp against it and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cat > "$W/all.cpp" <<X
#include "$D/demo.cpp"
X
F="-std=c++20 -O1 -g -w -march=native -I$R -DRPP_RELEASE=0"
for t in rpp/impl/unify.cpp rpp/pos/unify.cpp; do clang++-18 $F -c "$R/$t" -o "$W/$(echo $t|tr / _).o" & done
clang++-18 $F -c "$W/all.cpp" -o "$W/all.o" || exit 2
wait
clang++-18 "$W"/*.o -lpthread -o "$W/demo" || exit 2
cd "$W" && timeout 60 ./demo
