// Scenarios C01-C06 and C08-C10: the operation table under the simulated scheduler, memory, allocator and entropy.
#include "pool.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fenv.h>
#include <locale.h>
#include <xmmintrin.h>
#include <sys/personality.h>
#include <map>
#include <vector>

// ------------------------------------------------------------------ registry
static std::vector<OpDef> OPS; static int NOPS, NROPS; // random operations follow the others
void ops_register(const OpDef& d) { OPS.push_back(d); }
void reg_vec(); void reg_quat(); void reg_mat23(); void reg_mat34(); void reg_mat4(); void reg_volumes(); void reg_geometry(); void reg_misc(); void reg_solver(); void reg_spline(); void reg_const(); void reg_rand();
static std::vector<int> SOLV;
static void registerAll()
{
	reg_vec(); reg_quat(); reg_mat23(); reg_mat34(); reg_mat4(); reg_volumes(); reg_geometry(); reg_misc(); reg_solver(); reg_spline(); reg_const();
	NOPS = (int)OPS.size();
	reg_rand();
	NROPS = (int)OPS.size() - NOPS;
	for (int i = 0; i < NOPS; i++) if (OPS[i].name[0] == 'S' && OPS[i].name[1] == '_') SOLV.push_back(i);
}
static std::string opName(i64 op) { if (op < 0 || op >= (i64)OPS.size()) return "?"; return std::string(OPS[op].name) + (OPS[op].real == 4 ? "<float>" : "<double>"); }

// ------------------------------------------------------------------ memory
static Pools* const POOLS = (Pools*)0x100000000000ull;
static const size_t POOLB = (sizeof(Pools) + 4095) / 4096 * 4096;
enum { NREF = 160 };
struct Ref { int op; u64 k; int ok; int n; i64 steps; int solved; u64 allocs; unsigned char b[OUTMAX]; };
struct RefMem { Ref r[NREF]; u64 constHash; };
static RefMem* REFS; static int g_nref;
static Pools* STAGE;                     // shared, filled by a child
static std::map<u64, Pools*> g_poolCache; static u64 g_poolNow = ~0ull;
static int g_nconst;

enum { C_SW, C_NEST, C_ABANDON, C_BIAS, C_AFAIL, C_CALLS, C_SKIP, C_GUARD, C_FILL, C_FPENV, C_REP, C_SOLVED, C_REPORTED, C_RETRY, C_DRAWS, C_STUCK, C_RESEED, C_ENTROPY, C_STRIDE, C_RO, C_FAILHIST, C_COVER, C_REFS };
static const char* const COUNTERS[] = { "preemptions at chosen accesses", "re-entrant calls nested inside a suspended call", "threads killed inside a call", "race-directed preemptions after a shared store", "failed allocations", "calls compared with their solo reference", "calls without a usable reference", "operands placed against unmapped pages", "runs with poisoned stack, heap and outputs", "calls under a foreign floating-point environment", "repeated calls", "solver calls that succeeded with faults armed", "solver calls that reported a failed allocation", "retries after a failure", "random draws delivered", "stuck or scripted draw segments", "re-seedings", "clock and entropy sources re-valued", "runs with strided operands", "runs with write-protected operands", "failed calls in the history", "coverage sweeps over the whole generator range", "solo reference executions", nullptr };

u64 ops_failed_allocs() { rt_quiet(true); u64 n = rt_alloc_stat().failed; rt_quiet(false); return n; }
static __thread int g_outcome;
void ops_outcome(int r) { g_outcome = r; }
void ops_copybytes(void* d, const void* s, size_t n) { unsigned char* a = (unsigned char*)d; const unsigned char* b = (const unsigned char*)s; while (n--) *a++ = *b++; }
unsigned char ops_outfill(u64 a) { return rt_fill(g_env.fillStack ? g_env.fillStack : 1, a); }
void* ops_buf(size_t n, size_t align, bool fill)
{
	void* d = g_env.place ? rt_guarded(n ? n : 1, align, false) : nullptr;
	if (d) ctr(C_GUARD); else d = rt_arena_alloc(n + 32);
	if (fill) rt_fillmem(d, n, g_env.fillStack ? g_env.fillStack : 1);
	return d;
}
void ops_seal(void* p) { rt_guard_seal(p); }
void* ops_place(const void* src, size_t n, size_t align)
{
	if (!rt_active()) return nullptr;
	rt_quiet(true);
	void* d = rt_guarded(n, align, true);
	if (d) { ops_copybytes(d, src, n); ctr(C_GUARD); }
	rt_quiet(false);
	return d;
}

// ------------------------------------------------------------------ one call
struct CallCtx { unsigned char buf[OUTMAX]; };
static void rawCall(int op, u64 k, Out& o)
{
	const OpDef& d = OPS[op];
	rt_out(o.b, OUTMAX);
	rt_enter(d.name);
	d.f(d.real == 4 ? (const void*)&POOLS->f : (const void*)&POOLS->d, k, o);
	rt_leave();
	rt_out(nullptr, 0);
}
static Ref* findRef(int op, u64 k)
{
	for (int i = 0; i < g_nref; i++) if (REFS->r[i].op == op && REFS->r[i].k == k) return &REFS->r[i];
	return nullptr;
}
static void mismatch(const char* cls, int op, u64 k, const Out& o, const Ref& r)
{
	int i = 0;
	while (i < o.n && i < r.n && o.b[i] == r.b[i]) i++;
	int rs = OPS[op].real, w = i / rs * rs;
	double got = 0, want = 0;
	if (rs == 4) { float a = 0, b = 0; if (w + 4 <= o.n) memcpy(&a, o.b + w, 4); if (w + 4 <= r.n) memcpy(&b, r.b + w, 4); got = a; want = b; }
	else { if (w + 8 <= o.n) memcpy(&got, o.b + w, 8); if (w + 8 <= r.n) memcpy(&want, r.b + w, 8); }
	rep_violation(cls, "%s operands %llx: result differs from the same call made alone (byte %d of %d/%d, about %.9g instead of %.9g)", opName(op).c_str(), (unsigned long long)k, i, o.n, r.n, got, want);
}
static unsigned char g_refbuf[OUTMAX]; static Ref* g_refCur;
static void refBody(int)
{
	Out o = { g_refbuf, 0 };
	g_outcome = -1;
	rawCall(g_refCur->op, g_refCur->k, o);
	Ref& r = *g_refCur;
	r.n = o.n; ops_copybytes(r.b, o.b, (size_t)o.n);
	r.steps = rt_steps(0); r.solved = g_outcome; r.allocs = rt_alloc_stat().allocs;
	r.ok = 1;
}
static void usePool(u64 seed, int fam)
{
	u64 key = seed * 16 + (u64)fam;
	if (key == g_poolNow) return;
	auto it = g_poolCache.find(key);
	if (it == g_poolCache.end())
	{
		pid_t pid = fork();
		if (pid == 0) { memset((void*)STAGE, 0, sizeof(Pools)); pool_build(*STAGE, seed, fam); _exit(0); }
		int st; waitpid(pid, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "pool build failed\n"); exit(3); }
		if (g_poolCache.size() > 24) { free(g_poolCache.begin()->second); g_poolCache.erase(g_poolCache.begin()); }
		Pools* p = (Pools*)malloc(sizeof(Pools));
		memcpy((void*)p, (void*)STAGE, sizeof(Pools));
		it = g_poolCache.insert(std::make_pair(key, p)).first;
	}
	memcpy((void*)POOLS, (void*)it->second, sizeof(Pools));
	g_poolNow = key;
}
static void needRef(int op, u64 k)
{
	if (op < 0 || op >= NOPS || findRef(op, k) || g_nref >= NREF) return;
	Ref* r = &REFS->r[g_nref++];
	r->op = op; r->k = k; r->ok = 0; r->n = 0; r->steps = 0;
	pid_t pid = fork();
	if (pid == 0)
	{
		extern void sim_sigsetup(void*, size_t);
		static char alt[32768]; sim_sigsetup(alt, sizeof alt);
		alarm(20);
		g_env = RtEnv(); g_env.fillHeap = 5;
		g_refCur = r;
		rt_budget(300000000);
		rt_run(1, refBody);
		_exit(0);
	}
	int st; waitpid(pid, &st, 0);
}
static void clampOp(Step& s, size_t i, int lo, int n) { if (s.a.size() > i) { i64 v = s.a[i]; if (v < lo || v >= lo + n) s.a[i] = lo + (i64)((u64)(v < 0 ? -v : v) % (u64)n); } }
static i64 refSteps(int op, u64 k) { Ref* r = findRef(op, k); return r && r->ok ? r->steps : 40; }

// ------------------------------------------------------------------ plan execution: threads of calls
enum { MAXCALLS = 512 };
struct Call { int kind; int op; u64 k; int rep; AllocPolicy pol; i64 x; };  // kind 0 call, 1 solver call under faults, 2 fp environment, 3 random operation as history
static Call g_calls[MAXT][MAXCALLS]; static int g_ncalls[MAXT]; static int g_threads;
static unsigned char g_buf[MAXT][4][OUTMAX];
static const char* g_prop;

static bool isP(const char* id) { return strcmp(g_prop, id) == 0; }
static const char* clsResult() { return "result"; }

static __thread int g_tid __attribute__((tls_model("initial-exec")));
static void checkCall(int op, u64 k, int level, bool compare)
{
	Out o = { g_buf[g_tid][level & 3], 0 };
	g_outcome = -1;
	rawCall(op, k, o);
	ev(mix64((u64)op, k)); evbytes(o.b, (size_t)o.n);
	if (!rt_guard_intact()) rep_violation("overrun", "%s operands %llx wrote outside the objects it was given", opName(op).c_str(), (unsigned long long)k);
	if (!compare) return;
	Ref* r = findRef(op, k);
	if (!r || !r->ok) { ctr(C_SKIP); return; }
	ctr(C_CALLS);
	if (o.n != r->n || memcmp(o.b, r->b, (size_t)o.n)) mismatch(clsResult(), op, k, o, *r);
}
static void nestRun(int op, u64 k)
{
	if (rep_violated()) return;
	checkCall(op % NOPS, k, rt_depth(), true);
}
static unsigned fpWord() { unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); return (_mm_getcsr() & ~0x3fu) | (unsigned)cw << 16; }
static u64 sigHash()
{
	u64 h = 0;
	for (int i = 1; i < 32; i++) { struct sigaction sa; memset(&sa, 0, sizeof sa); if (sigaction(i, nullptr, &sa) == 0) h = mix64(h, (u64)(size_t)sa.sa_handler); }
	sigset_t m; sigemptyset(&m); pthread_sigmask(SIG_BLOCK, nullptr, &m);
	for (int i = 1; i < 32; i++) h = mix64(h, (u64)sigismember(&m, i));
	return h;
}
// long repetitions of heavy calls are cut so that a run stays within a few million accesses
static int repeats(const Call& c)
{
	i64 n = c.rep < 1 ? 1 : c.rep, most = 400000 / (refSteps(c.op, c.k) + 1);
	return (int)(n > most && n > 1 ? (most < 2 ? 2 : most) : n);
}
static u64 budget(const Plan& p)
{
	u64 b = 1000000;
	for (int t = 0; t < g_threads; t++) for (int i = 0; i < g_ncalls[t]; i++) b += 8 * (u64)refSteps(g_calls[t][i].op, g_calls[t][i].k) * (u64)(g_calls[t][i].kind == 0 ? repeats(g_calls[t][i]) : 2);
	for (auto& s : p.steps) if (s.k == "nest" || s.k == "nestp") b += 8 * (u64)refSteps((int)((u64)s.arg(s.k == "nest" ? 2 : 3) % (u64)NOPS), (u64)s.arg(s.k == "nest" ? 3 : 4));
	return b;
}
static void body(int t)
{
	g_tid = t;
	bool c06 = isP("C06");
	std::string loc; u64 sig = 0; bool foreign = false;
	if (c06) { loc = setlocale(LC_ALL, nullptr); sig = sigHash(); }
	for (int i = 0; i < g_ncalls[t] && !rep_violated(); i++)
	{
		Call& c = g_calls[t][i];
		if (g_env.place && !rt_mt()) rt_guard_reset();
		rt_arena_reset();
		if (g_env.fillStack > 0) rt_paint_stack();
		unsigned fp = fpWord();
		if (c.kind == 2)
		{
			static const int modes[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
			fesetround(modes[c.x & 3]);
			unsigned m = _mm_getcsr() & ~0x8040u;
			if (c.x & 4) m |= 0x8040;
			_mm_setcsr(m);
			foreign = (c.x & 7) != 0;
			continue;
		}
		if (c.kind == 3) { Out o = { g_buf[t][0], 0 }; rawCall(c.op, c.k, o); }
		else if (c.kind == 0)
		{
			if (foreign) ctr(C_FPENV);
			int n = repeats(c);
			for (int j = 0; j < n && !rep_violated(); j++)
			{
				if (j) { rt_arena_reset(); if (g_env.place && !rt_mt()) rt_guard_reset(); ctr(C_REP); }
				checkCall(c.op, c.k, 0, !foreign);
			}
		}
		else
		{
			Ref* r = findRef(c.op, c.k);
			if (!r || !r->ok) { ctr(C_SKIP); continue; }
			for (int attempt = 0; attempt < 2 && !rep_violated(); attempt++)
			{
				if (attempt) { ctr(C_RETRY); rt_arena_reset(); if (g_env.place && !rt_mt()) rt_guard_reset(); }
				AllocPolicy off;
				rt_alloc_policy(attempt ? off : c.pol);
				Out o = { g_buf[t][0], 0 };
				AllocStat before = rt_alloc_stat();
				g_outcome = -1;
				rawCall(c.op, c.k, o);
				AllocStat after = rt_alloc_stat();
				rt_alloc_policy(off);
				ev(mix64((u64)c.op, c.k)); ev(mix64(after.allocs - before.allocs, after.failed - before.failed)); evbytes(o.b, (size_t)o.n);
				if (!c06 && after.live != before.live)
					rep_violation("leak", "%s operands %llx: %llu blocks (%llu bytes) allocated by the call were not released", opName(c.op).c_str(), (unsigned long long)c.k, (unsigned long long)(after.live - before.live), (unsigned long long)(after.livebytes - before.livebytes));
				if (!rt_guard_intact()) rep_violation("overrun", "%s operands %llx wrote outside the objects it was given", opName(c.op).c_str(), (unsigned long long)c.k);
				if (g_outcome == 0)
				{
					ctr(C_REPORTED);
					ctr(C_FAILHIST);
					if (attempt) rep_violation("retry", "%s operands %llx fails again although memory is available", opName(c.op).c_str(), (unsigned long long)c.k);
					continue;
				}
				if (!attempt && c.pol.mode) ctr(C_SOLVED);
				ctr(C_CALLS);
				if (o.n != r->n || memcmp(o.b, r->b, (size_t)o.n)) mismatch(attempt ? "retry" : after.failed != before.failed ? "wrong-under-pressure" : "result", c.op, c.k, o, *r);
				break;
			}
		}
		if (c06)
		{
			if (fpWord() != fp) rep_violation("fp-environment", "%s changed the floating-point control word from %08x to %08x", opName(c.op).c_str(), fp, fpWord());
			if (loc != setlocale(LC_ALL, nullptr)) rep_violation("locale", "%s changed the locale", opName(c.op).c_str());
			if (rt_const_hash(g_nconst) != REFS->constHash) rep_violation("constants", "%s changed a named constant", opName(c.op).c_str());
		}
	}
	if (c06 && sigHash() != sig) rep_violation("signals", "signal dispositions or mask changed");
}

// absolute step of call j, permille p, on thread t
static i64 absStep(int t, i64 j, i64 pm)
{
	i64 s = 0;
	if (g_ncalls[t] == 0) return 1;
	j %= g_ncalls[t]; if (j < 0) j = 0;
	for (int i = 0; i < j; i++) s += refSteps(g_calls[t][i].op, g_calls[t][i].k);
	i64 n = refSteps(g_calls[t][j].op, g_calls[t][j].k);
	return s + 1 + pm * n / 1000;
}

static void parseCalls(const Plan& p)
{
	g_threads = 0;
	for (int t = 0; t < MAXT; t++) g_ncalls[t] = 0;
	for (auto s : p.steps)
	{
		int t = (int)(s.arg(0) & 7);
		if (s.k == "call") { clampOp(s, 1, 0, NOPS); if (g_ncalls[t] < MAXCALLS) { Call c = Call(); c.op = (int)s.arg(1); c.k = (u64)s.arg(2); c.rep = (int)s.arg(3, 1); g_calls[t][g_ncalls[t]++] = c; } }
		else if (s.k == "solve") { clampOp(s, 1, SOLV[0], (int)SOLV.size()); if (g_ncalls[t] < MAXCALLS) { Call c = Call(); c.kind = 1; c.op = (int)s.arg(1); c.k = (u64)s.arg(2); c.pol.mode = (int)s.arg(3); c.pol.n = s.arg(4); c.pol.seed = (u64)s.arg(5); g_calls[t][g_ncalls[t]++] = c; } }
		else if (s.k == "fpenv") { Call c = Call(); c.kind = 2; c.op = 0; c.x = s.arg(1); if (g_ncalls[t] < MAXCALLS) g_calls[t][g_ncalls[t]++] = c; }
		else if (s.k == "random") { clampOp(s, 1, NOPS, NROPS); Call c = Call(); c.kind = 3; c.op = (int)s.arg(1); c.k = (u64)s.arg(2); if (g_ncalls[t] < MAXCALLS) g_calls[t][g_ncalls[t]++] = c; }
		else continue;
		if (t + 1 > g_threads) g_threads = t + 1;
	}
}
static void preparePool(const Plan& p)
{
	u64 seed = 0; int fam = 0;
	for (auto& s : p.steps) if (s.k == "pool") { seed = (u64)s.arg(0); fam = (int)(s.arg(1) % 5 + 5) % 5; }
	mprotect((void*)POOLS, POOLB, PROT_READ | PROT_WRITE);
	usePool(seed, fam);
}
static void prepare(const Plan& p)
{
	preparePool(p);
	g_nref = 0;
	parseCalls(p);
	for (int t = 0; t < g_threads; t++) for (int i = 0; i < g_ncalls[t]; i++) if (g_calls[t][i].kind < 2) needRef(g_calls[t][i].op, g_calls[t][i].k);
	for (auto& s : p.steps) if (s.k == "nest" || s.k == "nestp") needRef((int)((u64)s.arg(s.k == "nest" ? 2 : 3) % (u64)NOPS), (u64)s.arg(s.k == "nest" ? 3 : 4));
}
static void execPlan(const Plan& p)
{
	static std::string prop; prop = p.prop; g_prop = prop.c_str();
	ctr(C_REFS, (u64)g_nref);
	g_env = RtEnv(); g_env.fillHeap = 5;
	parseCalls(p);
	for (auto& s : p.steps)
		if (s.k == "env")
		{
			g_env.fillHeap = (int)s.arg(0); g_env.fillStack = (int)s.arg(1) < 0 ? 0 : (int)s.arg(1); g_env.place = (int)(s.arg(2) % 3); if (g_env.place < 0) g_env.place = 0; g_env.shift = (int)s.arg(3) & 255; g_env.gap = (int)s.arg(4) & 15; g_env.readonly = s.arg(5) != 0;
			if (g_env.fillStack) ctr(C_FILL);
			if (g_env.gap) ctr(C_STRIDE);
			if (g_env.readonly) { ctr(C_RO); mprotect((void*)POOLS, POOLB, PROT_READ); }
			shape(mix64(mix64((u64)g_env.fillHeap, (u64)g_env.fillStack), mix64((u64)g_env.place, (u64)g_env.gap)));
		}
		else if (s.k == "draws") { rt_draws_reset((u64)s.arg(0)); }
	for (auto& s : p.steps)
	{
		int t = (int)(s.arg(0) & 7);
		if (s.k == "switch") rt_add_switch(t, s.arg(1), (int)(s.arg(2) & 7));
		else if (s.k == "switchp") rt_add_switch(t, absStep(t, s.arg(1), s.arg(2)), (int)(s.arg(3) & 7));
		else if (s.k == "nest") rt_add_nest(t, s.arg(1), (int)((u64)s.arg(2) % (u64)NOPS), (u64)s.arg(3), nestRun);
		else if (s.k == "nestp") rt_add_nest(t, absStep(t, s.arg(1), s.arg(2)), (int)((u64)s.arg(3) % (u64)NOPS), (u64)s.arg(4), nestRun);
		else if (s.k == "abandon") rt_add_abandon(t, s.arg(1));
		else if (s.k == "abandonp") rt_add_abandon(t, absStep(t, s.arg(1), s.arg(2)));
		else if (s.k == "bias") rt_bias((u64)s.arg(0), (int)s.arg(1));
	}
	for (int t = 0; t < g_threads; t++) for (int i = 0; i < g_ncalls[t]; i++) shape(mix64((u64)g_calls[t][i].op, g_calls[t][i].k));
	rt_budget(budget(p));
	if (g_threads) rt_run(g_threads, body);
	g_sh->simtime_us += g_sh->steps;
}
// scheduler decisions made while running become explicit steps
static bool concretise(Plan& p, const Shared& sh)
{
	if (sh.nsw >= MAXSW) return false;
	bool dyn = false;
	std::vector<Step> keep;
	for (auto& s : p.steps)
	{
		if (s.k == "bias" || s.k == "switchp") { dyn = true; continue; }
		keep.push_back(s);
	}
	if (!dyn) return false;
	p.steps = keep;
	for (int i = 0; i < sh.nsw; i++) p.add("switch", { sh.sw[i].t, sh.sw[i].step, sh.sw[i].target });
	return true;
}
static std::string describe(const Step& s)
{
	Step c = s;
	if (s.k == "call") clampOp(c, 1, 0, NOPS); else if (s.k == "solve") clampOp(c, 1, SOLV[0], (int)SOLV.size()); else if (s.k == "random") clampOp(c, 1, NOPS, NROPS); else if (s.k == "rnd") clampOp(c, 0, NOPS, NROPS);
	if (s.k == "call") return "thread " + std::to_string(s.arg(0)) + ": " + opName(c.arg(1)) + (s.arg(3, 1) > 1 ? " repeated" : "");
	if (s.k == "solve") { static const char* m[] = { "no allocation fails", "one allocation fails", "every allocation from the n-th fails", "allocations fail at random", "large allocations fail" }; return "thread " + std::to_string(s.arg(0)) + ": " + opName(c.arg(1)) + ", " + m[(u64)s.arg(3) % 5]; }
	if (s.k == "nest") return "inside thread " + std::to_string(s.arg(0)) + " at access " + std::to_string(s.arg(1)) + ": " + opName((i64)((u64)s.arg(2) % (u64)NOPS));
	if (s.k == "nestp") return "inside thread " + std::to_string(s.arg(0)) + ", call " + std::to_string(s.arg(1)) + ": " + opName((i64)((u64)s.arg(3) % (u64)NOPS));
	if (s.k == "switch") return "thread " + std::to_string(s.arg(0)) + " is preempted at its access " + std::to_string(s.arg(1));
	if (s.k == "abandon" || s.k == "abandonp") return "thread " + std::to_string(s.arg(0)) + " dies inside a call";
	if (s.k == "env") return "memory: heap fill, stack and output fill, placement (1 end / 2 start at unmapped page), shift, stride seed, write-protected";
	if (s.k == "pool") return "operand pool: seed, family (0 general, 1 grid, 2 near-duplicates, 3 extremes, 4 general with non-finite values)";
	if (s.k == "random" || s.k == "rnd") return opName(c.arg(s.k == "random" ? 1 : 0));
	return "";
}

// ------------------------------------------------------------------ generators
static u64 rk(Rng& r) { return r.next() & 0x7fffffffffffffffull; }
static u64 near(Rng& r, u64 k) { return k ^ (1ull << (4 * r.below(8))) ^ (r.chance(0.3) ? 1ull << (4 * r.below(8)) : 0); }
static void genPool(Plan& p, Rng& r, int famBias = -1)
{
	int fam = famBias >= 0 && r.chance(0.5) ? famBias : (int)r.below(5);
	p.add("pool", { (i64)r.below(6), fam });
}
static void genSchedule(Plan& p, Rng& r, int n)
{
	int sw = r.chance(0.2) ? 0 : (int)r.range(1, 12);
	for (int i = 0; i < sw; i++) p.add("switchp", { r.range(0, n - 1), r.range(0, 4), r.range(0, 1000), r.range(0, n - 1) });
	if (r.chance(0.7)) p.add("bias", { (i64)rk(r), r.chance(0.5) ? 32 : r.range(1, 200) });
}
static void genC01(Plan& p, Rng& r, int tier)
{
	genPool(p, r);
	int n = (int)r.range(2, tier ? 5 : 4);
	int hot[3]; for (int& h : hot) h = (int)r.below((u64)NOPS);
	bool same = r.chance(0.5);
	if (r.chance(0.3)) p.add("env", { r.range(1, 8), r.chance(0.5) ? r.range(1, 8) : 0, 0, r.range(0, 255), r.chance(0.3) ? r.range(1, 9) : 0, 0 });
	u64 k0 = rk(r);
	for (int t = 0; t < n; t++)
	{
		int m = (int)r.range(1, tier ? 5 : 3);
		for (int i = 0; i < m; i++)
		{
			int op = same ? hot[r.below(2)] : r.chance(0.5) ? hot[r.below(3)] : (int)r.below((u64)NOPS);
			p.add("call", { t, op, (i64)(r.chance(0.3) ? near(r, k0) : r.chance(0.1) ? k0 : rk(r)), 1 });
		}
	}
	genSchedule(p, r, n);
}
static void genC02(Plan& p, Rng& r, int)
{
	genPool(p, r);
	int n = (int)r.range(1, 3);
	int hot = (int)r.below((u64)NOPS); u64 k0 = rk(r);
	bool same = r.chance(0.6);
	for (int t = 0; t < n; t++)
	{
		int m = (int)r.range(1, 3);
		for (int i = 0; i < m; i++) p.add("call", { t, same ? hot : (int)r.below((u64)NOPS), (i64)(r.chance(0.3) ? near(r, k0) : rk(r)), 1 });
	}
	int e = (int)r.range(n == 1 ? 1 : 0, 4);
	for (int i = 0; i < e; i++)
		p.add("nestp", { r.range(0, n - 1), r.range(0, 2), r.range(0, 1000), r.chance(0.6) ? hot : (i64)r.below((u64)NOPS), (i64)(r.chance(0.4) ? near(r, k0) : rk(r)) });
	if (n > 1)
	{
		int a = (int)r.range(e ? 0 : 1, n - 1);
		for (int i = 0; i < a; i++) p.add("abandonp", { i, r.range(0, 2), r.range(0, 1000) });
		genSchedule(p, r, n);
	}
}
static void genC03(Plan& p, Rng& r, int)
{
	genPool(p, r);
	p.add("env", { r.range(1, 8), r.chance(0.3) ? r.range(1, 8) : 0, r.chance(0.5) ? r.range(1, 2) : 0, r.range(0, 255), r.chance(0.3) ? r.range(1, 9) : 0, 1 });
	int n = r.chance(0.3) ? 2 : 1;
	for (int t = 0; t < n; t++)
	{
		int m = (int)r.range(2, 8);
		for (int i = 0; i < m; i++) p.add("call", { t, (i64)r.below((u64)NOPS), (i64)rk(r), r.chance(0.1) ? 3 : 1 });
	}
	if (n > 1) genSchedule(p, r, n);
}
static void genSolve(Plan& p, Rng& r, int t)
{
	int op = SOLV[r.below(SOLV.size())];
	int mode = (int)r.range(0, 9); mode = mode >= 5 ? 1 : mode;
	i64 n = mode == 1 || mode == 2 ? r.range(1, 8) : mode == 3 ? r.range(20, 200) : mode == 4 ? (i64)(1 << r.range(3, 12)) : 0;
	p.add("solve", { t, op, (i64)rk(r), mode, n, (i64)rk(r) });
}
static void genC04(Plan& p, Rng& r, int)
{
	genPool(p, r);
	p.add("env", { r.chance(0.2) ? -1 : r.range(1, 8), r.chance(0.3) ? r.range(1, 8) : 0, r.chance(0.3) ? r.range(1, 2) : 0, r.range(0, 255), 0, r.chance(0.5) ? 1 : 0 });
	int n = r.chance(0.25) ? 2 : 1;
	for (int t = 0; t < n; t++)
	{
		int m = (int)r.range(1, 8);
		for (int i = 0; i < m; i++)
		{
			if (r.chance(0.15)) p.add("call", { t, (i64)r.below((u64)NOPS), (i64)rk(r), 1 });
			else genSolve(p, r, t);
		}
	}
	if (n > 1) genSchedule(p, r, n);
}
static void genC05(Plan& p, Rng& r, int)
{
	genPool(p, r);
	p.add("env", { r.chance(0.15) ? -1 : r.range(0, 30), r.range(1, 30), r.chance(0.5) ? r.range(1, 2) : 0, r.range(0, 255), r.chance(0.6) ? r.range(1, 9) : 0, r.chance(0.2) ? 1 : 0 });
	int m = (int)r.range(3, 12);
	for (int i = 0; i < m; i++) p.add("call", { 0, (i64)r.below((u64)NOPS), (i64)rk(r), 1 });
}
static void genC06(Plan& p, Rng& r, int)
{
	genPool(p, r, 2);
	p.add("env", { -1, 0, r.chance(0.4) ? 1 : 0, 0, 0, 0 });
	p.add("draws", { (i64)rk(r) });
	int m = (int)r.range(3, 24);
	int hot[3]; for (int& h : hot) h = (int)r.below((u64)NOPS);
	u64 k0 = rk(r);
	bool longRep = r.chance(0.15);
	for (int i = 0; i < m; i++)
	{
		double c = r.unit();
		if (c < 0.06) p.add("random", { 0, NOPS + (i64)r.below((u64)NROPS), (i64)rk(r) });
		else if (c < 0.12) genSolve(p, r, 0);
		else if (c < 0.14) { p.add("fpenv", { 0, r.range(1, 7) }); p.add("call", { 0, (i64)r.below((u64)NOPS), (i64)rk(r), 1 }); p.add("fpenv", { 0, 0 }); }
		else
		{
			int op = r.chance(0.75) ? hot[r.below(3)] : (int)r.below((u64)NOPS);
			u64 k = r.chance(0.55) ? near(r, k0) : r.chance(0.2) ? k0 : rk(r);
			p.add("call", { 0, op, (i64)k, longRep && r.chance(0.2) ? r.range(20, 400) : r.chance(0.1) ? r.range(2, 6) : 1 });
		}
	}
}

// ------------------------------------------------------------------ C10: seeding and draws
struct RefDraws { int n; unsigned char b[64][256]; int len[64]; };
static RefDraws* RDRAWS; static u64 g_rseed; static std::vector<Step> g_seq; // rnd and app steps
static void takeSeq(const Plan& p) { g_seq.clear(); for (auto& s : p.steps) if ((s.k == "rnd" || s.k == "app") && g_seq.size() < 64) { Step q = s; if (q.k == "rnd") clampOp(q, 0, NOPS, NROPS); g_seq.push_back(q); } }
extern "C" int rand() noexcept;
static int seqItem(const Step& s, unsigned char* buf)
{
	Out o = { buf, 0 };
	if (s.k == "app") { rt_quiet(true); int v = rand(); rt_quiet(false); o << v; }
	else rawCall((int)s.arg(0), (u64)s.arg(1), o);
	return o.n;
}
static void refSeqBody(int)
{
	rt_own_srand((unsigned)g_rseed);
	for (size_t i = 0; i < g_seq.size(); i++)
	{
		unsigned char* b = g_buf[0][0];
		rt_arena_reset();
		int n = seqItem(g_seq[i], b); if (n > 256) n = 256;
		RDRAWS->len[i] = n; ops_copybytes(RDRAWS->b[i], b, (size_t)n);
		RDRAWS->n = (int)i + 1;
	}
}
static void prepC10(const Plan& p)
{
	preparePool(p); g_nref = 0;
	takeSeq(p);
	g_rseed = 1;
	for (auto& s : p.steps) if (s.k == "seed") g_rseed = (u64)s.arg(0) & 0xffffffffu;
	RDRAWS->n = 0;
	pid_t pid = fork();
	if (pid == 0) { extern void sim_sigsetup(void*, size_t); static char alt[32768]; sim_sigsetup(alt, sizeof alt); alarm(20); g_env = RtEnv(); g_env.fillHeap = 5; rt_entropy_value(12345); rt_budget(300000000); rt_run(1, refSeqBody); _exit(0); }
	int st; waitpid(pid, &st, 0);
	parseCalls(p);
}
static int g_passes;
static void quietCall(Call& c, int t)
{
	u64 d0 = rt_draw_count(), s0 = rt_srand_count();
	rt_arena_reset();
	Out o = { g_buf[t][1], 0 };
	rawCall(c.op, c.k, o);
	ctr(C_CALLS);
	if (rt_draw_count() != d0) rep_violation("draws", "%s operands %llx consumed %llu draws of the generator", opName(c.op).c_str(), (unsigned long long)c.k, (unsigned long long)(rt_draw_count() - d0));
	if (rt_srand_count() != s0) rep_violation("seeds", "%s operands %llx re-seeded the generator", opName(c.op).c_str(), (unsigned long long)c.k);
}
static void bodyC10(int t)
{
	g_tid = t;
	if (t)
	{
		for (int i = 0; i < g_ncalls[t] && !rep_violated(); i++) if (g_calls[t][i].kind == 0) quietCall(g_calls[t][i], t);
		return;
	}
	int q = 0;
	// history before seeding
	for (; q < g_ncalls[0] / 3 && !rep_violated(); q++) if (g_calls[0][q].kind == 0) quietCall(g_calls[0][q], 0); else if (g_calls[0][q].kind == 3) { Out o = { g_buf[0][1], 0 }; rawCall(g_calls[0][q].op, g_calls[0][q].k, o); }
	for (int pass = 0; pass < g_passes && !rep_violated(); pass++)
	{
		rt_own_srand((unsigned)g_rseed); ctr(C_RESEED);
		for (size_t i = 0; i < g_seq.size() && (int)i < RDRAWS->n && !rep_violated(); i++)
		{
			if (g_ncalls[0] && (i * 7 + (size_t)pass) % 3 == 0) for (int j = 0; j < 2; j++, q++) { Call& c = g_calls[0][q % g_ncalls[0]]; if (c.kind == 0) quietCall(c, 0); }
			rt_arena_reset();
			u64 s0 = rt_srand_count();
			int n = seqItem(g_seq[i], g_buf[0][0]); if (n > 256) n = 256;
			ctr(C_DRAWS);
			if (rt_srand_count() != s0) rep_violation("seeds", "%s re-seeded the generator", opName(g_seq[i].arg(0)).c_str());
			if (n != RDRAWS->len[i] || memcmp(g_buf[0][0], RDRAWS->b[i], (size_t)n))
				rep_violation("not-reproducible", "item %zu (%s) of a random sequence seeded with %llu differs from a fresh process (pass %d)", i, g_seq[i].k == "app" ? "the application's own draw" : opName(g_seq[i].arg(0)).c_str(), (unsigned long long)g_rseed, pass);
		}
	}
}
static void execC10(const Plan& p)
{
	static std::string prop; prop = p.prop; g_prop = prop.c_str();
	g_env = RtEnv(); g_env.fillHeap = 5;
	parseCalls(p); takeSeq(p);
	g_passes = 2;
	for (auto& s : p.steps)
	{
		int t = (int)(s.arg(0) & 7);
		if (s.k == "entropy") { rt_entropy_value((u64)s.arg(0)); ctr(C_ENTROPY); }
		else if (s.k == "switch") rt_add_switch(t, s.arg(1), (int)(s.arg(2) & 7));
		else if (s.k == "bias") rt_bias((u64)s.arg(0), (int)s.arg(1));
		else if (s.k == "env") { g_env.shift = (int)s.arg(3) & 255; g_env.fillStack = (int)s.arg(1) < 0 ? 0 : (int)s.arg(1); }
	}
	for (auto& s : g_seq) shape(mix64((u64)s.arg(0), (u64)s.arg(1)));
	for (int t = 0; t < g_threads; t++) for (int i = 0; i < g_ncalls[t]; i++) shape(mix64((u64)g_calls[t][i].op, (u64)i));
	rt_budget(300000000);
	rt_run(g_threads ? g_threads : 1, bodyC10);
	g_sh->simtime_us += g_sh->steps;
}
static void genC10(Plan& p, Rng& r, int)
{
	genPool(p, r);
	p.add("seed", { r.chance(0.3) ? r.range(0, 3) : (i64)(r.next() & 0xffffffffu) });
	p.add("entropy", { (i64)rk(r) });
	p.add("env", { 0, r.chance(0.5) ? r.range(1, 9) : 0, 0, r.range(0, 255) });
	int m = (int)r.range(1, 14);
	for (int i = 0; i < m; i++)
	{
		if (r.chance(0.15)) p.add("app", { 0 });
		else p.add("rnd", { NOPS + (i64)r.below((u64)NROPS), (i64)rk(r) });
	}
	int n = r.chance(0.5) ? 2 : 1;
	for (int t = 0; t < n; t++)
	{
		int c = (int)r.range(1, 10);
		for (int i = 0; i < c; i++)
			if (t == 0 && r.chance(0.2)) p.add("random", { 0, NOPS + (i64)r.below((u64)NROPS), (i64)rk(r) });
			else p.add("call", { t, (i64)r.below((u64)NOPS), (i64)rk(r), 1 });
	}
	if (n > 1)
	{
		int sw = (int)r.range(1, 10);
		for (int i = 0; i < sw; i++) p.add("switch", { r.range(0, 1), r.range(1, 400), r.range(0, 1) });
		p.add("bias", { (i64)rk(r), r.range(1, 100) });
	}
}

// ------------------------------------------------------------------ C08 and C09: values delivered for every draw sequence
void rnd_exec(int t, const Step& s, bool cover);    // rnd.cpp, instrumented
extern int rnd_nscalar, rnd_nvector; const char* rnd_name(int fn);
static std::vector<Step> g_rsteps[MAXT];
static void bodyRnd(int t)
{
	g_tid = t;
	for (auto& s : g_rsteps[t]) { if (rep_violated()) return; rt_arena_reset(); rnd_exec(t, s, s.k == "cover"); }
}
static void execRnd(const Plan& p)
{
	static std::string prop; prop = p.prop; g_prop = prop.c_str();
	g_env = RtEnv(); g_env.fillHeap = 5;
	int n = 0;
	for (int t = 0; t < MAXT; t++) g_rsteps[t].clear();
	rt_draws_reset(1);
	for (auto& s : p.steps)
	{
		int t = (int)(s.arg(0) & 7);
		if (s.k == "draws") rt_draws_reset((u64)s.arg(0));
		else if (s.k == "seg") { i64 len = s.arg(1); if (len < 0) len = 0; if (len > 20000) len = 20000; rt_draws_seg((int)(u64)(s.arg(0) & 7), len, s.arg(2), s.arg(3)); ctr(C_STUCK); shape(mix64((u64)s.arg(0), (u64)s.arg(1))); shape((u64)s.arg(2)); }
		else if (s.k == "fn" || s.k == "cover") { g_rsteps[t].push_back(s); if (t + 1 > n) n = t + 1; shape(mix64((u64)s.arg(1), mix64((u64)s.arg(2), (u64)s.arg(3)))); }
		else if (s.k == "switch") rt_add_switch(t, s.arg(1), (int)(s.arg(2) & 7));
		else if (s.k == "bias") rt_bias((u64)s.arg(0), (int)s.arg(1));
		else if (s.k == "entropy") { rt_entropy_value((u64)s.arg(0)); ctr(C_ENTROPY); }
	}
	if (n) rt_run(n, bodyRnd);
	g_sh->simtime_us += g_sh->steps;
}
static void genRnd(Plan& p, Rng& r, bool vec)
{
	p.add("draws", { (i64)rk(r) });
	p.add("entropy", { (i64)rk(r) });
	int segs = (int)r.range(0, 5);
	static const i64 x[] = { 0, 1, 2, 0x7fffffff, 0x7ffffffe, 0x7ffffffd, 0x40000000, 0x3fffffff, 0x40000001, 0x7fffffc0, 0x7fffffbf };
	for (int i = 0; i < segs; i++)
	{
		int kind = (int)r.range(0, 4);
		i64 v = r.chance(0.7) ? x[r.below(11)] : (i64)(r.next() & 0x7fffffff), w = kind == 3 ? (r.chance(0.5) ? 1 : -(i64)r.below(1000)) : r.chance(0.7) ? x[r.below(11)] : (i64)(r.next() & 0x7fffffff);
		p.add("seg", { kind, r.chance(0.1) ? r.range(100, 3000) : r.range(1, 12), v, w });
	}
	int n = r.chance(0.3) ? (int)r.range(2, 3) : 1;
	int nf = vec ? rnd_nvector : rnd_nscalar;
	for (int t = 0; t < n; t++)
	{
		int c = (int)r.range(1, 5);
		for (int i = 0; i < c; i++)
			p.add("fn", { t, (vec ? 100 : 0) + (i64)r.below((u64)nf), r.chance(0.5) ? r.range(-20, 20) : r.range(-1000000, 1000000), r.chance(0.5) ? r.range(1, 30) : r.range(1, 1000000), r.range(1, 12) });
	}
	if (n == 1 && r.chance(0.08)) p.add("cover", { 0, (vec ? 100 : 0) + (i64)r.below((u64)nf), r.chance(0.5) ? r.range(-20, 20) : r.range(-1000000, 1000000), r.chance(0.5) ? r.range(1, 30) : r.range(1, 1000000), 3000 });
	if (n > 1)
	{
		int sw = (int)r.range(1, 8);
		for (int i = 0; i < sw; i++) p.add("switch", { r.range(0, n - 1), r.range(1, 60), r.range(0, n - 1) });
		p.add("bias", { (i64)rk(r), r.range(1, 128) });
	}
}
static void genC08(Plan& p, Rng& r, int) { genRnd(p, r, false); }
static void genC09(Plan& p, Rng& r, int) { genRnd(p, r, true); }
static std::string describeRnd(const Step& s)
{
	if (s.k == "fn") return "thread " + std::to_string(s.arg(0)) + ": " + rnd_name((int)s.arg(1)) + " with a=" + std::to_string(s.arg(2)) + " b=" + std::to_string(s.arg(3)) + ", " + std::to_string(s.arg(4)) + " calls";
	if (s.k == "cover") return std::string("sweep of ") + rnd_name((int)s.arg(1)) + " over the whole generator range";
	if (s.k == "seg") { static const char* k[] = { "uniform draws", "stuck draws", "alternating draws", "counting draws", "draws at the extremes" }; return std::string(k[(u64)s.arg(0) % 5]) + ", " + std::to_string(s.arg(1)) + " of them"; }
	return describe(s);
}

Scenario g_scenarios[] = {
	{ "C01", genC01, prepare, execPlan, COUNTERS, describe, concretise, true },
	{ "C02", genC02, prepare, execPlan, COUNTERS, describe, concretise, true },
	{ "C03", genC03, prepare, execPlan, COUNTERS, describe, concretise, true },
	{ "C04", genC04, prepare, execPlan, COUNTERS, describe, concretise, true },
	{ "C05", genC05, prepare, execPlan, COUNTERS, describe, concretise, true },
	{ "C06", genC06, prepare, execPlan, COUNTERS, describe, concretise, true },
	{ "C08", genC08, nullptr, execRnd, COUNTERS, describeRnd, concretise, true },
	{ "C09", genC09, nullptr, execRnd, COUNTERS, describeRnd, concretise, true },
	{ "C10", genC10, prepC10, execC10, COUNTERS, describe, concretise, true },
};
int g_nscenarios = (int)(sizeof g_scenarios / sizeof *g_scenarios);

static void* fixedMap(void* at, size_t n)
{
	void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != at) { perror("mmap"); exit(3); }
	return p;
}
int main(int argc, char** argv)
{
	if (!getenv("SIM_NOASLR_TRIED"))
	{
		int pers = personality(0xffffffff);
		if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOASLR_TRIED", "1", 1); execv("/proc/self/exe", argv); }
	}
	registerAll();
	fixedMap((void*)POOLS, POOLB);
	STAGE = (Pools*)mmap(nullptr, POOLB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	REFS = (RefMem*)mmap(nullptr, sizeof(RefMem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	RDRAWS = (RefDraws*)mmap(nullptr, sizeof(RefDraws), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	rt_arenas();
	pool_constants();
	g_nconst = rt_const_count();
	REFS->constHash = rt_const_hash(g_nconst);
	rt_const_range((void*)POOLS, sizeof(Pools));
	return sim_main(argc, argv);
}
