#!/bin/bash
# build_siof.sh REPO OUTDIR: builds the simulated programs and simsiof from the working tree of REPO
set -e
repo=$1; out=$2; here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$out"
inc="-I$repo/libs/mathlib/include -I$here/siof"
groups=("-DG_VEC=1 -DG_MAT=1 -DG_VOL=1 -DG_COL=1 -DG_CALL=1" "-DG_VEC=1 -DG_MAT=1" "-DG_VOL=1 -DG_CALL=1" "-DG_COL=1" "-DG_MAT=1 -DG_CALL=1")
configs=("g++ -std=c++11 -O0" "g++ -std=c++17 -O2 -DNDEBUG" "clang++ -std=c++17 -O0" "clang++ -std=c++11 -O2 -DNDEBUG")
pids=()
for c in 0 1 2 3; do
	for u in 0 1 2 3 4; do
		( ${configs[$c]} -w -fno-pie $inc -DTU=$u ${groups[$u]} -c "$here/siof/tu.cpp" -o "$out/c$c.u$u.raw.o"
		  objcopy --rename-section .init_array=sim_init,alloc,load,data,contents "$out/c$c.u$u.raw.o" "$out/c$c.u$u.o" ) & pids+=($!)
	done
done
g++ -std=c++11 -O1 -w -fno-pie -c "$here/siof/prog.cpp" -o "$out/prog.o" & pids+=($!)
clang++ -std=c++17 -O2 -g1 -fno-pie -Wno-everything -c "$here/siof/main.cpp" -o "$out/main.o" & pids+=($!)
clang++ -std=c++17 -O2 -g1 -fno-pie -Wno-everything -c "$here/sim/core.cpp" -o "$out/core.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
for c in 0 1 2 3; do g++ -no-pie -o "$out/prog$c" "$out"/c$c.u?.o "$out/prog.o" -lpthread; done
rm -f "$out"/*.raw.o
clang++ -no-pie -o "$out/simsiof.tmp" "$out/main.o" "$out/core.o" -lpthread
mv "$out/simsiof.tmp" "$out/simsiof"
