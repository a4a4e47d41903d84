#!/bin/bash
# build_hist.sh REPO OUTDIR: builds simhist from the working tree of REPO
set -e
repo=$1; out=$2; here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$out"
inc="-I$repo/libs/mathlib/include"
pids=()
objs=()
for f in $(cd "$here/hist" && ls *.cpp); do
	f=${f%.cpp}; objs+=("$out/$f.o")
	clang++ -std=c++17 -O1 -g1 -ffp-contract=off -ftrivial-auto-var-init=pattern -fno-pie -Wno-everything $inc -c "$here/hist/$f.cpp" -o "$out/$f.o" & pids+=($!)
done
clang++ -std=c++17 -O2 -g1 -fno-pie -Wno-everything -c "$here/sim/core.cpp" -o "$out/core.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
clang++ -no-pie -o "$out/simhist.tmp" "${objs[@]}" "$out/core.o" -lpthread
mv "$out/simhist.tmp" "$out/simhist"
