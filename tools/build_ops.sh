#!/bin/bash
# build_ops.sh REPO OUTDIR: builds simops from the working tree of REPO
set -e
repo=$1; out=$2; here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$out"
inc="-I$repo/libs/mathlib/include"
cov="-fsanitize-coverage=trace-loads,trace-stores,trace-pc-guard"
std="-std=c++11 -O0 -g1 -DNDEBUG -fno-pie -Wno-everything -ffunction-sections"
pids=()
for f in vec quat mat23 mat34 mat4 volumes geometry misc solver spline const rand; do
	clang++ $std $cov $inc -DOPFILE="\"$f.inc\"" -DOPREG=reg_$f -x c++ -c "$here/ops/opstu.h" -o "$out/o_$f.o" & pids+=($!)
done
clang++ $std $cov $inc -c "$here/ops/rnd.cpp" -o "$out/o_rnd.o" & pids+=($!)
clang++ $std $cov $inc -c "$here/ops/pool.cpp" -o "$out/pool.o" & pids+=($!)
clang++ -std=c++17 -O1 -g1 -DNDEBUG -fno-pie -Wno-everything $inc -c "$here/ops/main.cpp" -o "$out/main.o" & pids+=($!)
clang++ -std=c++17 -O2 -g1 -fno-pie -Wno-everything -c "$here/sim/rt.cpp" -o "$out/rt.o" & pids+=($!)
clang++ -std=c++17 -O2 -g1 -fno-pie -Wno-everything -c "$here/sim/core.cpp" -o "$out/core.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
wraps=""
for w in memcpy memmove memset malloc free calloc realloc aligned_alloc posix_memalign pthread_mutex_lock pthread_rwlock_wrlock pthread_rwlock_rdlock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_once time clock_gettime clock gettimeofday; do wraps="$wraps -Wl,--wrap=$w"; done
clang++ -no-pie -o "$out/simops.tmp" "$out"/o_*.o "$out/pool.o" "$out/main.o" "$out/rt.o" "$out/core.o" $wraps -lpthread
mv "$out/simops.tmp" "$out/simops"
