// Plan / result / PRNG shared by all simulators. No mathlib code here.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>

typedef uint64_t u64;
typedef int64_t i64;

struct Rng
{
	u64 s;
	explicit Rng(u64 seed = 0) : s(seed) {}
	u64 next()
	{
		u64 z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); } // inclusive
	double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
	bool chance(double p) { return unit() < p; }
};

inline u64 mix64(u64 a, u64 b)
{
	u64 z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

struct Step
{
	std::string k;
	std::vector<i64> a;
	Step() {}
	Step(const char* kind, std::initializer_list<i64> l) : k(kind), a(l) {}
	i64 arg(size_t i, i64 def = 0) const { return i < a.size() ? a[i] : def; }
};

struct Plan
{
	std::string prop;
	u64 seed = 0, index = 0;
	std::vector<Step> steps;
	std::string text() const;
	bool parse(const std::string& text);
	void add(const char* kind, std::initializer_list<i64> l) { steps.push_back(Step(kind, l)); }
};

enum { NCTR = 64, MAXSW = 4096 };

// Lives in memory shared between a run (child process) and its parent.
struct Shared
{
	volatile int status;       // 0 running/died, 1 ok, 2 violation, 3 harness error
	u64 hash;                  // event log hash of the run
	u64 shape;                 // hash of the schedule/fault shape (distinctness measure)
	u64 steps;                 // scheduling points or events
	u64 simtime_us;            // simulated time covered
	u64 ctr[NCTR];             // counters (names in the scenario)
	char cls[96];
	char msg[1536];
	char known[64];            // id of a listed finding this run met
	char knownMsg[256];
	int nsw;                   // switches actually performed
	struct { int t, target; i64 step; } sw[MAXSW];
};
extern Shared* g_sh;

// Reports from inside a run.
void rep_violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void rep_known(const char* id, const char* fmt, ...) __attribute__((format(printf, 2, 3))); // behaviour of a listed finding
bool rep_violated();
[[noreturn]] void rep_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void ev(u64 x) { g_sh->hash = mix64(g_sh->hash, x); }
inline void shape(u64 x) { g_sh->shape = mix64(g_sh->shape, x); }
inline void evbytes(const void* p, size_t n)
{
	const unsigned char* c = (const unsigned char*)p;
	u64 h = 1469598103934665603ull;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	ev(h);
}
inline void ctr(int i, u64 n = 1) { g_sh->ctr[i] += n; }

struct Scenario
{
	const char* id;
	// fills plan (prop/seed/index already set)
	void (*gen)(Plan&, Rng&, int tier);
	// parent-side preparation (reference results); may be null
	void (*prepare)(const Plan&);
	// child-side execution
	void (*exec)(const Plan&);
	// counter names, null terminated
	const char* const* counters;
	// hand-written description of one plan for evidence; may be null
	std::string (*describe)(const Step&);
	// turns schedule decisions taken dynamically into explicit steps; may be null
	bool (*concretise)(Plan&, const Shared&);
	// fork per run (needed where library statics must be pristine)
	bool forkEach;
};
extern Scenario g_scenarios[];
extern int g_nscenarios;
int sim_main(int argc, char** argv);
