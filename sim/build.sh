#!/bin/bash
# build.sh OUTDIR [REPO [val|use]]: builds the simulation driver (and the replay of values or of usage) from the working tree of REPO (default /repo)
set -e
O=$1; R=${2:-/repo}; D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
W="-w"
INS="g++ -std=c++11 -O1 -g -DNDEBUG -DVEIGAR_STATIC -fsanitize=thread -fno-inline-small-functions --param tsan-instrument-func-entry-exit=0 $W"
pids=()
for f in $(ls "$R"/src/*.cpp); do
    $INS -I"$R/include" -iquote "$R/src" -c "$f" -o "$O/lib_$(basename "$f" .cpp).o" & pids+=($!)
done
$INS -I"$R/include" -iquote "$D" -c "$D/api.cpp" -o "$O/api.o" & pids+=($!)
g++ -std=c++17 -O2 -g -fno-builtin $W -c "$D/rt.cpp" -o "$O/rt.o" & pids+=($!)
g++ -std=c++11 -O1 -g -DNDEBUG -DVEIGAR_STATIC $W -I"$R/include" -iquote "$R/src" -iquote "$D" -c "$D/drv.cpp" -o "$O/drv.o" & pids+=($!)
g++ -std=c++11 -O1 -g -DNDEBUG -DVEIGAR_STATIC $W -I"$R/include" -iquote "$R/src" -iquote "$D" -c "$D/unit.cpp" -o "$O/unit.o" & pids+=($!)
[ "$3" = use ] && { g++ -std=c++11 -O1 -g -DNDEBUG -DVEIGAR_STATIC $W -I"$R/include" -iquote "$R/src" -iquote "$D" -c "$D/use.cpp" -o "$O/use.o" & pids+=($!); }
[ "$3" = val ] && { g++ -std=c++11 -O0 -DNDEBUG -DVEIGAR_STATIC $W -I"$R/include" -iquote "$D" -c "$D/val.cpp" -o "$O/val.o" & pids+=($!); }
for p in "${pids[@]}"; do wait $p; done
g++ -rdynamic -o "$O/drv" "$O"/lib_*.o "$O/api.o" "$O/drv.o" "$O/rt.o" -ldl -lpthread
g++ -rdynamic -o "$O/unit" "$O"/lib_*.o "$O/unit.o" "$O/rt.o" -ldl -lpthread
[ "$3" != val ] || g++ -rdynamic -o "$O/val" "$O"/lib_*.o "$O/val.o" "$O/rt.o" -ldl -lpthread
[ "$3" != use ] || g++ -rdynamic -o "$O/use" "$O"/lib_*.o "$O/use.o" "$O/rt.o" -ldl -lpthread
