// Simulator runtime for code compiled with access instrumentation. No mathlib code here.
#pragma once
#include "core.h"

struct RtCall { int op; u64 k; };          // one call of the operation table

enum { MAXT = 8, OUTMAX = 16384 };

// memory environment of a run
struct RtEnv
{
	int fillHeap = 0;     // fill pattern index
	int fillStack = 0;
	int place = 0;        // 0 operands read in place, 1 each operand ends at a guard page, 2 each operand starts after a guard page
	int shift = 0;        // address shift of thread arenas (multiples of 16)
	int gap = 0;          // seed of stride gaps of bulk operands, 0 = packed
	bool readonly = false;
};
extern RtEnv g_env;

struct AllocPolicy
{
	int mode = 0;         // 0 never fail, 1 the n-th, 2 all from the n-th, 3 seeded probability p/256, 4 any larger than n bytes
	i64 n = 0;
	u64 seed = 0;
};

// thread body: called on simulator threads
typedef void (*RtBody)(int tid);

void rt_arenas();                            // map fixed arenas (once, in the parent)
void rt_run(int nthreads, RtBody body);      // runs bodies to completion under the schedule
// schedule control
void rt_add_switch(int t, i64 step, int target);
void rt_add_nest(int t, i64 step, int op, u64 k, void (*run)(int op, u64 k));
void rt_add_abandon(int t, i64 step);
void rt_bias(u64 seed, int num256);          // race-directed preemption after foreign stores
bool rt_abandoned(int t);
void rt_budget(u64 n);                       // scheduling points after which a run counts as hung
i64 rt_steps(int t);
// marks "inside library code" on the current thread
void rt_enter(const char* what);
void rt_leave();
// allocation accounting of the current thread
void rt_alloc_policy(const AllocPolicy&);
struct AllocStat { u64 allocs, frees, failed, live, livebytes; };
AllocStat rt_alloc_stat();
// paints the stack below the current frame
void rt_paint_stack();
void rt_out(void* lo, size_t n);                // output record of the running call: not a scheduling point
void rt_quiet(bool on);                         // harness code between library calls of one operation
bool rt_active();
void rt_const_range(const void* lo, size_t n);  // memory no library call may write
u64 rt_const_hash(int first);
int rt_const_count();
void rt_heap_reset();                           // forget blocks of finished calls (bump pointer back)
u64 rt_guards_used();
int rt_depth();
bool rt_mt();
unsigned char rt_fill(int pattern, u64 addr);
void rt_fillmem(void* p, size_t n, int pattern);
// operand placement next to guard pages; returns an address for n bytes
void* rt_guarded(size_t n, size_t align, bool readonly);
void rt_guard_seal(void* p);                    // from now on nobody may write the object
void rt_guard_reset();
// checks that the bytes around guarded objects still hold their canary
bool rt_guard_intact();
void rt_arena_reset();
void* rt_arena_alloc(size_t n);              // harness-owned scratch of this thread (not counted, not instrumented)

// draws
struct DrawSeg { int kind; i64 n; i64 v; i64 w; };
void rt_draws_reset(u64 seed);
void rt_draws_seg(int kind, i64 n, i64 v, i64 w);
u64 rt_draw_count();                         // draws of this thread
bool rt_draws_in_seg();                      // a scripted segment is still being delivered
u64 rt_srand_count();
u64 rt_entropy_count();                      // uses of any other entropy or clock source
void rt_entropy_value(u64 seed);             // what those sources deliver
void rt_own_srand(unsigned s);               // application seeds the generator
