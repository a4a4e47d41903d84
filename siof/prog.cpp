// Driver of the simulated program. It holds no mathlib code. The initialisers of the five units have been moved out of
// .init_array; main calls them in the order given on the command line:
//   prog list                                            the probes, one per line
//   prog run ORDERSEED TOKEN...                          TOKEN = unit:phase:thread:probedunit:first:count:stride
// Records go to descriptor 1 as they are produced: token, unit, probe, count, values.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <unistd.h>
#include "prog.h"
Unit unit0();
Unit unit1();
Unit unit2();
Unit unit3();
Unit unit4();
static Unit (*const units[NUNIT])() = { unit0, unit1, unit2, unit3, unit4 };
typedef void (*Init)(int, char**, char**);
extern "C" Init __start_sim_init[] __attribute__((weak));
extern "C" Init __stop_sim_init[] __attribute__((weak));

struct Out { int32_t token, unit, probe, n; double v[24]; };
static void probe(int token, int unit, int i)
{
	Out o;
	memset(&o, 0, sizeof o);
	Rec r;
	r.n = 0;
	units[unit]().p[i].f(r);
	o.token = token; o.unit = unit; o.probe = i; o.n = r.n;
	memcpy(o.v, r.v, sizeof(double) * r.n);
	if (write(1, &o, sizeof o) != (ssize_t)sizeof o) _exit(9);
}
struct Token { int unit, phase, thread, punit, first, count, stride, index; };
static Token tokens[256];
static int ntokens;
static void burst(const Token& t)
{
	const Unit u = units[t.punit]();
	for (int k = 0; k < t.count && k < u.n; k++) probe(t.index, t.punit, (t.first + k * t.stride) % u.n);
}
static void* thread(void* p) { burst(*(Token*)p); return 0; }
void sim_hook(int unit, int phase)
{
	for (int i = 0; i < ntokens; i++)
		if (tokens[i].unit == unit && tokens[i].phase == phase)
		{
			if (!tokens[i].thread) { burst(tokens[i]); continue; }
			pthread_t th;
			if (pthread_create(&th, 0, thread, &tokens[i])) _exit(8);
			pthread_join(th, 0);
		}
}
static uint64_t s;
static uint64_t rnd()
{
	uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
int main(int argc, char** argv)
{
	int n = (int)(__stop_sim_init - __start_sim_init);
	if (argc > 1 && !strcmp(argv[1], "list"))
	{
		printf("%d\n", n);
		for (int u = 0; u < NUNIT; u++)
			for (int i = 0; i < units[u]().n; i++)
			{
				printf("%d %d %d", u, i, units[u]().p[i].nwant);
				for (int k = 0; k < units[u]().p[i].nwant; k++) printf(" %.17g", units[u]().p[i].want[k]);
				printf(" %s\n", units[u]().p[i].name);
			}
		fflush(stdout);
		return 0;
	}
	for (int i = 3; i < argc && ntokens < 256; i++)
	{
		Token& t = tokens[ntokens];
		if (sscanf(argv[i], "%d:%d:%d:%d:%d:%d:%d", &t.unit, &t.phase, &t.thread, &t.punit, &t.first, &t.count, &t.stride) != 7) return 7;
		t.index = ntokens++;
	}
	static Init order[256];
	if (n > 256) return 6;
	for (int i = 0; i < n; i++) order[i] = __start_sim_init[i];
	s = strtoull(argv[2], 0, 10);
	for (int i = n - 1; i > 0; i--) { int j = (int)(rnd() % (i + 1)); Init t = order[i]; order[i] = order[j]; order[j] = t; }
	for (int i = 0; i < n; i++) if (order[i]) order[i](argc, argv, 0);
	// finally every probe, with everything initialised
	for (int u = 0; u < NUNIT; u++) for (int i = 0; i < units[u]().n; i++) probe(-1, u, i);
	return 0;
}
