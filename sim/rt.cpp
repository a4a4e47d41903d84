#include "rt.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <new>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <cerrno>

RtEnv g_env;

// ---------------------------------------------------------------------------------- threads
static const u64 ARENA0 = 0x200000000000ull, ARENASZ = 16ull << 20; // per thread: stack at the bottom, heap above
static const u64 STACKSZ = 1ull << 20;
static const u64 GUARD0 = 0x300000000000ull; enum { GUARDSLOTS = 96 };

struct Event { i64 step; int kind; int a; u64 k; void (*run)(int, u64); }; // kind 0 switch, 1 nest, 2 abandon
struct Th
{
	pthread_t h; sem_t sem;
	bool live, done, abandoned, blocked;
	i64 steps; u64 raw, rawAtStep;
	Event ev[256]; int nev, cur;
	u64 heapTop;                    // bump pointer
	u64 scratchTop;
	AllocStat as; AllocPolicy pol; i64 polCount; Rng polRng;
	const char* what;
};
static Th g_th[MAXT];
static int g_nth, g_cur; static RtBody g_body; static sem_t g_done;
static u64 g_biasSeed; static int g_biasNum; static Rng g_biasRng;
static u64 g_totSteps; static u64 g_blockSpins; static u64 g_budget = 6000000;
void rt_budget(u64 n) { g_budget = n; }
static int g_aband;

struct Tl { bool active; bool quiet; int tid; int depth; u64 stk, stksz; u64 outlo, outn; };
static __thread Tl tl __attribute__((tls_model("initial-exec")));

extern "C" const char* sim_where_impl() { return (tl.active || tl.depth) && g_th[tl.tid].what ? g_th[tl.tid].what : "the simulated program"; }

void rt_arenas()
{
	void* p = mmap((void*)ARENA0, ARENASZ * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void*)ARENA0) { perror("arena"); exit(3); }
	// guard slots: [none][rw][none]...
	p = mmap((void*)GUARD0, 4096ull * (2 * GUARDSLOTS + 1), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void*)GUARD0) { perror("guard"); exit(3); }
	for (int i = 0; i < GUARDSLOTS; i++)
		if (mprotect((void*)(GUARD0 + 4096ull * (2 * i + 1)), 4096, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
}

static int nextLive(int from)
{
	for (int i = 1; i <= g_nth; i++)
	{
		int t = (from + i) % g_nth;
		if (g_th[t].live && !g_th[t].done && !g_th[t].abandoned) return t;
	}
	return -1;
}

static void switchTo(int target)
{
	int me = tl.tid;
	if (target == me) return;
	Th& m = g_th[me];
	if (g_sh->nsw < MAXSW && !m.abandoned)
	{
		g_sh->sw[g_sh->nsw].t = me; g_sh->sw[g_sh->nsw].step = m.steps; g_sh->sw[g_sh->nsw].target = target;
		g_sh->nsw++;
	}
	shape(mix64(me * 64 + target, m.steps)); ev(mix64(me * 64 + target + 1, m.steps));
	g_cur = target;
	sem_post(&g_th[target].sem);
	while (sem_wait(&m.sem) && errno == EINTR) {}
}

[[noreturn]] static void fatalViolation(const char* cls, const char* msg)
{
	rep_violation(cls, "%s (in %s)", msg, sim_where_impl());
	_exit(2);
}

static void parkForever()
{
	// the baton goes on; this thread never runs again
	Th& m = g_th[tl.tid];
	m.abandoned = true;
	g_aband++;
	int n = nextLive(tl.tid);
	shape(mix64(0xabad, m.steps)); ev(mix64(0xabad, m.steps));
	if (n < 0) sem_post(&g_done);
	else { g_cur = n; sem_post(&g_th[n].sem); }
	for (;;) pause();
}

// called when the current thread cannot proceed until another one does something
static void blockedYield(const char* on)
{
	int n = nextLive(tl.tid);
	if (n < 0 || n == tl.tid) fatalViolation("waits", on);
	if (++g_blockSpins > 2000) fatalViolation("waits", on);
	switchTo(n);
}

static void doEvents(Th& m)
{
	while (m.cur < m.nev && m.ev[m.cur].step <= m.steps)
	{
		Event e = m.ev[m.cur++];
		if (e.kind == 0)
		{
			int t = e.a % g_nth;
			if (t != tl.tid && g_th[t].live && !g_th[t].done && !g_th[t].abandoned) { ctr(0); switchTo(t); }
		}
		else if (e.kind == 1)
		{
			if (tl.depth >= 3) continue;
			ctr(1);
			shape(mix64(0x7e57, m.steps)); ev(mix64(0x7e57, m.steps));
			const char* w = m.what; Tl keep = tl;
			u64 scratch = m.scratchTop;
			e.run(e.a, e.k);
			tl = keep; m.what = w; m.scratchTop = scratch;
		}
		else { ctr(2); parkForever(); }
	}
}

static void step(bool foreignStore)
{
	Th& m = g_th[tl.tid];
	m.steps++; g_totSteps++; m.rawAtStep = m.raw;
	if (g_totSteps > g_budget) fatalViolation("hang", "no progress: step budget exhausted");
	tl.active = false; tl.depth++;
	if (m.cur < m.nev && m.ev[m.cur].step <= m.steps) doEvents(m);
	if (foreignStore && g_biasNum && g_nth > 1 && (int)(g_biasRng.next() & 255) < g_biasNum)
	{
		int t = (int)(g_biasRng.next() % g_nth);
		if (t != tl.tid && g_th[t].live && !g_th[t].done && !g_th[t].abandoned) { ctr(3); switchTo(t); }
	}
	tl.depth--; tl.active = true;
}

static inline bool own(u64 a)
{
	return a - tl.stk < tl.stksz || a - tl.outlo < tl.outn;
}
static void rawTick(Th& m)
{
	if (++m.raw - m.rawAtStep > 20000000ull) fatalViolation("hang", "no progress: endless loop");
	if (g_nth > 1 && (m.raw - m.rawAtStep) % 20000 == 0)
	{ // spinning on something: let the others run
		tl.active = false; tl.depth++;
		int n = nextLive(tl.tid);
		if (n >= 0 && n != tl.tid) switchTo(n);
		tl.depth--; tl.active = true;
	}
}
static struct { u64 lo, n; } g_const[256]; static int g_nconst; static u64 g_constLo = ~0ull, g_constHi;
static struct { u64 lo, n; bool ro; } g_slots[GUARDSLOTS]; static int g_slot;
void rt_const_range(const void* lo, size_t n)
{
	if (g_nconst == 256) rep_error("too many constant ranges");
	g_const[g_nconst].lo = (u64)lo; g_const[g_nconst].n = n; g_nconst++;
	if ((u64)lo < g_constLo) g_constLo = (u64)lo;
	if ((u64)lo + n > g_constHi) g_constHi = (u64)lo + n;
}
static bool g_watchConst = true;
static void constCheck(u64 a)
{
	if (a >= GUARD0 && a < GUARD0 + 4096ull * (2 * GUARDSLOTS + 1))
	{
		u64 s = (a - GUARD0) / 4096;
		if (!(s & 1) || s / 2 >= (u64)g_slot) return;
		if (g_slots[s / 2].ro && a - g_slots[s / 2].lo < g_slots[s / 2].n) fatalViolation("const-write", "an operand taken as const was written");
		return;
	}
	if (a < g_constLo || a >= g_constHi) return;
	for (int i = 0; i < g_nconst; i++)
		if (a - g_const[i].lo < g_const[i].n) fatalViolation("const-write", "a const operand or named constant was written");
}
static inline void access(void* p, bool write)
{
	if (!tl.active) return;
	u64 a = (u64)p;
	if (own(a)) return;
	if (write) constCheck(a);
	bool foreign = write && !(a - (ARENA0 + ARENASZ * tl.tid) < ARENASZ);
	step(foreign);
}

extern "C" {
void __sanitizer_cov_load1(uint8_t* a) { access(a, false); }
void __sanitizer_cov_load2(uint16_t* a) { access(a, false); }
void __sanitizer_cov_load4(uint32_t* a) { access(a, false); }
void __sanitizer_cov_load8(uint64_t* a) { access(a, false); }
void __sanitizer_cov_load16(__int128* a) { access(a, false); }
void __sanitizer_cov_store1(uint8_t* a) { access(a, true); }
void __sanitizer_cov_store2(uint16_t* a) { access(a, true); }
void __sanitizer_cov_store4(uint32_t* a) { access(a, true); }
void __sanitizer_cov_store8(uint64_t* a) { access(a, true); }
void __sanitizer_cov_store16(__int128* a) { access(a, true); }
void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (tl.active) rawTick(g_th[tl.tid]); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
	if (tl.active && n) { access((void*)s, false); }
	void* r = __real_memcpy(d, s, n);
	if (tl.active && n) access(d, true);
	return r;
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
	if (tl.active && n) { access((void*)s, false); }
	void* r = __real_memmove(d, s, n);
	if (tl.active && n) access(d, true);
	return r;
}
void* __wrap_memset(void* d, int c, size_t n)
{
	void* r = __real_memset(d, c, n);
	if (tl.active && n) access(d, true);
	return r;
}
}

// ---------------------------------------------------------------------------------- synchronisation a change might add
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!tl.active) return __real_pthread_mutex_lock(m);
	step(false);
	tl.active = false; tl.depth++;
	while (pthread_mutex_trylock(m) != 0) blockedYield("a call waits for a lock held by a suspended or dead call");
	g_blockSpins = 0;
	tl.depth--; tl.active = true;
	return 0;
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
	if (!tl.active) return __real_pthread_rwlock_wrlock(m);
	step(false);
	tl.active = false; tl.depth++;
	while (pthread_rwlock_trywrlock(m) != 0) blockedYield("a call waits for a lock held by a suspended or dead call");
	g_blockSpins = 0;
	tl.depth--; tl.active = true;
	return 0;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
	if (!tl.active) return __real_pthread_rwlock_rdlock(m);
	step(false);
	tl.active = false; tl.depth++;
	while (pthread_rwlock_tryrdlock(m) != 0) blockedYield("a call waits for a lock held by a suspended or dead call");
	g_blockSpins = 0;
	tl.depth--; tl.active = true;
	return 0;
}
static struct { void* g; int owner; } g_guards[256]; static int g_nguards;
int __real___cxa_guard_acquire(u64*);
void __real___cxa_guard_release(u64*);
void __real___cxa_guard_abort(u64*);
static int findGuard(void* g) { for (int i = 0; i < g_nguards; i++) if (g_guards[i].g == g) return i; return -1; }
int __wrap___cxa_guard_acquire(u64* g)
{
	if (!tl.active && tl.depth == 0) return __real___cxa_guard_acquire(g);
	bool was = tl.active;
	if (was) step(false);
	tl.active = false; tl.depth++;
	int r;
	for (;;)
	{
		if (*(volatile char*)g) { r = 0; break; }
		int i = findGuard(g);
		if (i < 0) { if (g_nguards < 256) { g_guards[g_nguards].g = g; g_guards[g_nguards].owner = tl.tid; g_nguards++; } r = 1; break; }
		if (g_guards[i].owner == tl.tid) fatalViolation("waits", "a call waits for a static initialisation that the call it interrupted has not finished");
		blockedYield("a call waits for a static initialisation held by a suspended or dead call");
	}
	g_blockSpins = 0;
	tl.depth--; tl.active = was;
	return r;
}
static void dropGuard(void* g) { int i = findGuard(g); if (i >= 0) g_guards[i] = g_guards[--g_nguards]; }
void __wrap___cxa_guard_release(u64* g)
{
	if (findGuard(g) < 0) { __real___cxa_guard_release(g); return; }
	*(volatile char*)g = 1; dropGuard(g);
}
void __wrap___cxa_guard_abort(u64* g)
{
	if (findGuard(g) < 0) { __real___cxa_guard_abort(g); return; }
	dropGuard(g);
}
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
	if (!tl.active) return __real_pthread_once(o, f);
	step(false);
	for (;;)
	{
		if (*o == 0x7001) return 0;
		if (*o == PTHREAD_ONCE_INIT) { *o = 0x7000; f(); *o = 0x7001; return 0; }
		tl.active = false; tl.depth++;
		blockedYield("a call waits for a one-time initialisation held by a suspended or dead call");
		tl.depth--; tl.active = true;
	}
}
}

// ---------------------------------------------------------------------------------- allocation
struct Hdr { u64 size; u64 tid; u64 magic; u64 pad; };
static const u64 MAGIC = 0x51a10c8ull;

unsigned char rt_fill(int pattern, u64 i)
{
	switch (pattern)
	{
	case 0: return 0;
	case 1: return 0xff;                                        // NaN
	case 2: return (i & 3) == 3 ? 0x3f : (i & 3) == 2 ? 0x80 : 0; // 1.0f (and a double near 0.0078)
	case 3: return (i & 7) == 7 ? 0x3f : (i & 7) == 6 ? 0xf0 : 0; // 1.0
	case 4: return 0x7f;                                        // huge
	case 5: return 0x01;                                        // denormal-ish, flags = 0x01010101
	case 6: return 0xc2;                                        // negative
	default: return (unsigned char)(mix64(pattern, i >> 3) >> (8 * (i & 7)));
	}
}
void rt_fillmem(void* p, size_t n, int pattern)
{
	unsigned char* c = (unsigned char*)p; size_t i = 0;
	for (; i < n && ((u64)(c + i) & 7); i++) c[i] = rt_fill(pattern, (u64)c + i);
	if (n - i >= 8)
	{
		u64 w = 0;
		if (pattern < 7) for (int j = 7; j >= 0; j--) w = w << 8 | rt_fill(pattern, (u64)j);
		for (; i + 8 <= n; i += 8) *(u64*)(c + i) = pattern < 7 ? w : mix64(pattern, (u64)(c + i) >> 3);
	}
	for (; i < n; i++) c[i] = rt_fill(pattern, (u64)c + i);
}

static bool shouldFail(Th& m, size_t n)
{
	m.polCount++;
	switch (m.pol.mode)
	{
	case 1: return m.polCount == m.pol.n;
	case 2: return m.polCount >= m.pol.n;
	case 3: return (i64)(m.polRng.next() & 255) < m.pol.n;
	case 4: return (i64)n > m.pol.n;
	default: return false;
	}
}
static void* simAlloc(size_t n, size_t align = 16)
{
	Th& m = g_th[tl.tid];
	step(false);
	if (shouldFail(m, n)) { m.as.failed++; return nullptr; }
	if (align < 16) align = 16;
	u64 p = (m.heapTop + sizeof(Hdr) + align - 1) / align * align;
	if (n > ARENASZ || p + n + 64 > ARENA0 + ARENASZ * (tl.tid + 1)) { m.as.failed++; return nullptr; }
	u64 before = m.heapTop;
	m.heapTop = (p + n + 15 + 16) & ~15ull;
	Hdr* h = (Hdr*)(p - sizeof(Hdr));
	h->size = n; h->tid = tl.tid; h->magic = MAGIC; h->pad = before;
	if (g_env.fillHeap >= 0) rt_fillmem((void*)p, n + (m.heapTop - p - n), g_env.fillHeap);
	m.as.allocs++; m.as.live++; m.as.livebytes += n;
	return (void*)p;
}
static inline bool inArena(void* p) { return (u64)p - ARENA0 < ARENASZ * MAXT; }
static void simFree(void* p)
{
	Hdr* h = (Hdr*)((u64)p - sizeof(Hdr));
	if (h->magic != MAGIC) fatalViolation("heap", "a block was freed twice or a foreign pointer was freed");
	// a write behind the block would have changed the fill bytes
	if (g_env.fillHeap >= 0)
		for (size_t i = 0; i < 16; i++)
			if (*((unsigned char*)p + h->size + i) != rt_fill(g_env.fillHeap, (u64)p + h->size + i)) fatalViolation("overrun", "memory behind a heap block was overwritten");
	h->magic = 0;
	Th& m = g_th[h->tid];
	m.as.frees++; m.as.live--; m.as.livebytes -= h->size;
	if (g_env.fillHeap >= 0) rt_fillmem(p, h->size, g_env.fillHeap);
	// the most recent block is handed out again first, as real allocators do
	if ((((u64)p + h->size + 15 + 16) & ~15ull) == m.heapTop && tl.tid == (int)h->tid) m.heapTop = h->pad;
}
void rt_alloc_policy(const AllocPolicy& p) { Th& m = g_th[tl.tid]; m.pol = p; m.polCount = 0; m.polRng = Rng(p.seed); }
AllocStat rt_alloc_stat() { return g_th[tl.tid].as; }

void* operator new(size_t n)
{
	if (tl.active) { void* p = simAlloc(n); if (!p) { ctr(4); throw std::bad_alloc(); } return p; }
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
	if (tl.active) { void* p = simAlloc(n); if (!p) ctr(4); return p; }
	return malloc(n ? n : 1);
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void* operator new(size_t n, std::align_val_t al)
{
	if (tl.active) { void* p = simAlloc(n, (size_t)al); if (!p) { ctr(4); throw std::bad_alloc(); } return p; }
	void* p = aligned_alloc((size_t)al, (n + (size_t)al - 1) / (size_t)al * (size_t)al);
	if (!p) throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n, std::align_val_t al) { return operator new(n, al); }
static void anyFree(void* p) { if (!p) return; if (inArena(p)) simFree(p); else free(p); }
void operator delete(void* p) noexcept { anyFree(p); }
void operator delete[](void* p) noexcept { anyFree(p); }
void operator delete(void* p, size_t) noexcept { anyFree(p); }
void operator delete[](void* p, size_t) noexcept { anyFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { anyFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { anyFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { anyFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { anyFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { anyFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { anyFree(p); }

extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) { if (tl.active) { void* p = simAlloc(n); if (!p) { ctr(4); errno = ENOMEM; } return p; } return __real_malloc(n); }
void __wrap_free(void* p) { if (p && inArena(p)) simFree(p); else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b)
{
	if (!tl.active) return __real_calloc(a, b);
	void* p = simAlloc(a * b);
	if (!p) { ctr(4); errno = ENOMEM; return p; }
	return __real_memset(p, 0, a * b);
}
void* __wrap_realloc(void* q, size_t n)
{
	if (!tl.active && !(q && inArena(q))) return __real_realloc(q, n);
	void* p = simAlloc(n);
	if (!p) { ctr(4); errno = ENOMEM; return p; }
	if (q) { Hdr* h = (Hdr*)((u64)q - sizeof(Hdr)); __real_memcpy(p, q, h->size < n ? h->size : n); simFree(q); }
	return p;
}
void* __wrap_aligned_alloc(size_t al, size_t n) { if (tl.active) { void* p = simAlloc(n, al); if (!p) ctr(4); return p; } return __real_aligned_alloc(al, n); }
int __wrap_posix_memalign(void** r, size_t al, size_t n)
{
	if (!tl.active) return __real_posix_memalign(r, al, n);
	void* p = simAlloc(n, al);
	if (!p) { ctr(4); return ENOMEM; }
	*r = p; return 0;
}
}

// ---------------------------------------------------------------------------------- running
static void* thMain(void* arg)
{
	int t = (int)(long)arg;
	Th& m = g_th[t];
	__real_memset(&tl, 0, sizeof tl);
	tl.tid = t; tl.stk = ARENA0 + ARENASZ * t; tl.stksz = STACKSZ + 65536;
	extern void sim_sigsetup(void*, size_t);
	sim_sigsetup((void*)(ARENA0 + ARENASZ * (t + 1) - 131072), 65536);
	while (sem_wait(&m.sem) && errno == EINTR) {}
	doEvents(m);
	g_body(t);
	tl.active = false;
	m.done = true;
	int n = nextLive(t);
	if (n < 0) sem_post(&g_done);
	else { g_cur = n; shape(mix64(0xd0, n)); ev(mix64(0xd0 + t, n)); sem_post(&g_th[n].sem); }
	return nullptr;
}

static int cmpEv(const void* a, const void* b)
{
	i64 x = ((const Event*)a)->step, y = ((const Event*)b)->step;
	return x < y ? -1 : x > y;
}

void rt_run(int n, RtBody body)
{
	g_nth = n; g_body = body; g_aband = 0;
	sem_init(&g_done, 0, 0);
	for (int t = 0; t < n; t++)
	{
		Th& m = g_th[t];
		m.live = true; m.done = m.abandoned = m.blocked = false; m.steps = 0; m.raw = m.rawAtStep = 0; m.cur = 0;
		m.heapTop = ARENA0 + ARENASZ * t + STACKSZ + (1 << 20) + 16ull * (g_env.shift & 255);
		m.scratchTop = ARENA0 + ARENASZ * t + STACKSZ + 65536 + 4096;
		qsort(m.ev, m.nev, sizeof(Event), cmpEv);
		sem_init(&m.sem, 0, 0);
		if (g_env.fillStack) rt_fillmem((void*)(ARENA0 + ARENASZ * t), STACKSZ, g_env.fillStack);
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstack(&at, (void*)(ARENA0 + ARENASZ * t), STACKSZ);
		if (pthread_create(&m.h, &at, thMain, (void*)(long)t)) rep_error("pthread_create failed");
	}
	g_cur = 0;
	sem_post(&g_th[0].sem);
	while (sem_wait(&g_done) && errno == EINTR) {}
	g_sh->steps += g_totSteps;
}

static void addEv(int t, Event e)
{
	if (t < 0 || t >= MAXT) return;
	Th& m = g_th[t];
	if (m.nev < 256) m.ev[m.nev++] = e;
}
void rt_add_switch(int t, i64 step, int target) { Event e = { step, 0, target, 0, nullptr }; addEv(t, e); }
void rt_add_nest(int t, i64 step, int op, u64 k, void (*run)(int, u64)) { Event e = { step, 1, op, k, run }; addEv(t, e); }
void rt_add_abandon(int t, i64 step) { Event e = { step, 2, 0, 0, nullptr }; addEv(t, e); }
void rt_bias(u64 seed, int num) { g_biasSeed = seed; g_biasNum = num; g_biasRng = Rng(seed); }
bool rt_abandoned(int t) { return g_th[t].abandoned; }
i64 rt_steps(int t) { return g_th[t].steps; }
void rt_enter(const char* what) { g_th[tl.tid].what = what; tl.active = true; }
void rt_leave() { tl.active = false; }
void rt_out(void* lo, size_t n) { tl.outlo = (u64)lo; tl.outn = n; }
void rt_quiet(bool on) { if (on) { tl.quiet = tl.active; tl.active = false; } else tl.active = tl.quiet; }
bool rt_active() { return tl.active; }
int rt_depth() { return tl.depth; }
bool rt_mt() { return g_nth > 1; }
void rt_arena_reset() { g_th[tl.tid].scratchTop = ARENA0 + ARENASZ * tl.tid + STACKSZ + 65536 + 4096; }
__attribute__((noinline)) void rt_paint_stack()
{
	volatile char buf[16384];
	rt_fillmem((void*)buf, sizeof buf, g_env.fillStack);
	asm volatile("" ::"r"(buf) : "memory");
}
void* rt_arena_alloc(size_t n)
{
	Th& m = g_th[tl.tid];
	void* p = (void*)m.scratchTop;
	m.scratchTop = (m.scratchTop + n + 63) & ~63ull;
	if (m.scratchTop > ARENA0 + ARENASZ * tl.tid + STACKSZ + (1 << 20)) rep_error("scratch arena exhausted");
	return p;
}

// ---------------------------------------------------------------------------------- guarded operands
static const unsigned char CANARY = 0xd7;
void rt_guard_reset() { g_slot = 0; }
int rt_const_count() { return g_nconst; }
u64 rt_const_hash(int first)
{
	u64 h = 0;
	for (int i = 0; i < g_nconst && i < first; i++) { const unsigned char* c = (const unsigned char*)g_const[i].lo; for (u64 j = 0; j < g_const[i].n; j++) h = (h ^ c[j]) * 1099511628211ull; }
	return h;
}
u64 rt_guards_used() { return g_slot; }
void rt_guard_seal(void* p) { for (int i = 0; i < g_slot; i++) if (g_slots[i].lo == (u64)p) g_slots[i].ro = true; }
void* rt_guarded(size_t n, size_t align, bool readonly)
{
	if (n > 4096 || g_slot >= GUARDSLOTS) return nullptr;
	u64 page = GUARD0 + 4096ull * (2 * g_slot + 1);
	u64 a = g_env.place == 1 ? (page + 4096 - n) / align * align : page;
	__real_memset((void*)page, CANARY, 4096);
	g_slots[g_slot].lo = a; g_slots[g_slot].n = n; g_slots[g_slot].ro = readonly;
	g_slot++;
	return (void*)a;
}
bool rt_guard_intact()
{
	for (int i = 0; i < g_slot; i++)
	{
		u64 page = GUARD0 + 4096ull * (2 * i + 1);
		for (u64 a = page; a < page + 4096; a++)
			if (a - g_slots[i].lo >= g_slots[i].n && *(unsigned char*)a != CANARY) return false;
	}
	return true;
}

// ---------------------------------------------------------------------------------- draws and other entropy
static DrawSeg g_seg[64]; static int g_nseg, g_iseg; static i64 g_iseg_n;
static Rng g_draw(1); static u64 g_draws[MAXT], g_srands[MAXT], g_entropy; static Rng g_ent(7);
static u64 g_app_seed;
void rt_draws_reset(u64 seed) { g_draw = Rng(mix64(seed, 0xd4a3)); g_nseg = g_iseg = 0; g_iseg_n = 0; g_app_seed = seed; }
void rt_draws_seg(int kind, i64 n, i64 v, i64 w) { if (g_nseg < 64) { g_seg[g_nseg].kind = kind; g_seg[g_nseg].n = n; g_seg[g_nseg].v = v; g_seg[g_nseg].w = w; g_nseg++; } }
u64 rt_draw_count() { return g_draws[tl.tid]; }
bool rt_draws_in_seg() { while (g_iseg < g_nseg && g_iseg_n >= g_seg[g_iseg].n) { g_iseg++; g_iseg_n = 0; } return g_iseg < g_nseg; }
void rt_heap_reset() { Th& m = g_th[tl.tid]; if (m.as.live == 0) m.heapTop = ARENA0 + ARENASZ * tl.tid + STACKSZ + (1 << 20) + 16ull * (g_env.shift & 255); }
u64 rt_srand_count() { return g_srands[tl.tid]; }
u64 rt_entropy_count() { return g_entropy; }
void rt_entropy_value(u64 s) { g_ent = Rng(s); }
void rt_own_srand(unsigned s) { rt_draws_reset(s); }
static int draw()
{
	if (tl.active) step(true);
	g_draws[tl.tid]++;
	while (g_iseg < g_nseg && g_iseg_n >= g_seg[g_iseg].n) { g_iseg++; g_iseg_n = 0; }
	if (g_iseg >= g_nseg) return (int)(g_draw.next() & 0x7fffffff);
	DrawSeg& s = g_seg[g_iseg];
	i64 i = g_iseg_n++;
	switch (s.kind)
	{
	case 0: return (int)(g_draw.next() & 0x7fffffff);
	case 1: return (int)(s.v & 0x7fffffff);
	case 2: return (int)((i & 1 ? s.w : s.v) & 0x7fffffff);
	case 3: return (int)((s.v + i * s.w) & 0x7fffffff);
	case 4: // around the two ends and powers of two
	{
		static const i64 x[] = { 0, 1, 2, 3, 0x7fffffff, 0x7ffffffe, 0x7ffffffd, 0x40000000, 0x3fffffff, 0x40000001, 0x20000000, 0x60000000, 0x7fffff80, 0x7fffffc0, 0x00ffffff, 0x01000001 };
		return (int)x[g_draw.next() & 15];
	}
	default: return (int)(g_draw.next() & 0x7fffffff);
	}
}
extern "C" {
int rand() noexcept { return draw(); }
void srand(unsigned s) noexcept { g_srands[tl.tid]++; rt_draws_reset(s); }
long random() noexcept { g_entropy++; return (long)(g_ent.next() & 0x7fffffff); }
void srandom(unsigned) noexcept { g_entropy++; }
int rand_r(unsigned* s) noexcept { g_entropy++; *s = *s * 1103515245u + 12345u; return (int)(*s >> 1 & 0x7fffffff); }
double drand48() noexcept { g_entropy++; return g_ent.unit(); }
long lrand48() noexcept { g_entropy++; return (long)(g_ent.next() & 0x7fffffff); }
long mrand48() noexcept { g_entropy++; return (long)(int)g_ent.next(); }
time_t __real_time(time_t*); int __real_clock_gettime(clockid_t, struct timespec*); clock_t __real_clock(); int __real_gettimeofday(struct timeval*, void*);
time_t __wrap_time(time_t* t) { if (!tl.active) return __real_time(t); g_entropy++; time_t v = (time_t)(g_ent.next() & 0x7fffffff); if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { if (!tl.active) return __real_clock_gettime(c, t); g_entropy++; t->tv_sec = g_ent.next() & 0x7fffffff; t->tv_nsec = g_ent.next() % 1000000000; return 0; }
clock_t __wrap_clock() { if (!tl.active) return __real_clock(); g_entropy++; return (clock_t)(g_ent.next() & 0x7fffffff); }
int __wrap_gettimeofday(struct timeval* t, void* z) { if (!tl.active) return __real_gettimeofday(t, z); g_entropy++; t->tv_sec = g_ent.next() & 0x7fffffff; t->tv_usec = g_ent.next() % 1000000; return 0; }
ssize_t getrandom(void* p, size_t n, unsigned) { g_entropy++; for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)g_ent.next(); return (ssize_t)n; }
int getentropy(void* p, size_t n) { getrandom(p, n, 0); return 0; }
}
