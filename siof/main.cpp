// C07: simulated programs whose static initialisers run in a seeded order and use the library while they run.
#include "../sim/core.h"
#include "prog.h"
#include <cmath>
#include <cstdint>
#include <limits.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

struct Out { int32_t token, unit, probe, n; double v[24]; };
struct Info { int nwant; double want[20]; std::string name; };
enum { NCFG = 4 };
static const char* const CFG[NCFG] = { "gcc -O0 c++11", "gcc -O2 c++17", "clang -O0 c++17", "clang -O2 c++11" };
static std::vector<Info> infos[NCFG][NUNIT];
static std::vector<Out> ref[NCFG];
static int ninit[NCFG];

enum { F_CFG0, F_EARLY = 4, F_LATE, F_TPL, F_DTOR, F_THREAD, F_CROSS, F_SAME, F_CMP, F_INIT };
static const char* const names[] = { "programs built by gcc -O0 c++11", "programs built by gcc -O2 c++17", "programs built by clang -O0 c++17", "programs built by clang -O2 c++11",
	"bursts from the first static object of a unit", "bursts from the last static object of a unit", "bursts from a static member of a template", "bursts from static destructors",
	"bursts on a thread started by an initialiser", "uses of another unit's code before or during its initialisation", "uses of the unit's own code", "values compared", "initialisers ordered by the simulator", nullptr };

static std::string dir()
{
	static char b[PATH_MAX];
	ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
	if (n <= 0) { fprintf(stderr, "no exe path\n"); exit(3); }
	b[n] = 0;
	std::string s(b);
	return s.substr(0, s.rfind('/'));
}
static std::string DIR;

static int spawn(int cfg, const std::vector<std::string>& args, std::string& out)
{
	int fd[2];
	if (pipe(fd)) { perror("pipe"); exit(3); }
	pid_t pid = fork();
	if (pid == 0)
	{
		alarm(20);
		dup2(fd[1], 1);
		close(fd[0]); close(fd[1]);
		std::string exe = DIR + "/prog" + std::to_string(cfg);
		std::vector<char*> a;
		a.push_back((char*)exe.c_str());
		for (auto& s : args) a.push_back((char*)s.c_str());
		a.push_back(nullptr);
		char* env[] = { nullptr };
		execve(exe.c_str(), a.data(), env);
		_exit(10);
	}
	close(fd[1]);
	char b[65536];
	ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n);
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	return st;
}
static std::vector<Out> records(const std::string& s)
{
	std::vector<Out> v(s.size() / sizeof(Out));
	memcpy(v.data(), s.data(), v.size() * sizeof(Out));
	return v;
}

static void prepare(const Plan&)
{
	if (!DIR.empty()) return;
	DIR = dir();
	for (int c = 0; c < NCFG; c++)
	{
		std::string s;
		if (spawn(c, { "list" }, s)) { fprintf(stderr, "program %d does not list\n", c); exit(3); }
		size_t p = 0;
		auto line = [&] { size_t e = s.find('\n', p); std::string l = s.substr(p, e - p); p = e + 1; return l; };
		ninit[c] = atoi(line().c_str());
		while (p < s.size())
		{
			std::string l = line();
			int u, i, off; Info in;
			sscanf(l.c_str(), "%d %d %d%n", &u, &i, &in.nwant, &off);
			const char* q = l.c_str() + off;
			for (int k = 0; k < in.nwant; k++) in.want[k] = strtod(q, (char**)&q);
			in.name = q + 1;
			infos[c][u].push_back(in);
		}
		std::string o;
		int st = spawn(c, { "run", "0" }, o);
		ref[c] = records(o);
		if (st) ref[c].clear();   // reported by the runs themselves
	}
}

static void gen(Plan& p, Rng& r, int tier)
{
	p.add("prog", { r.range(0, NCFG - 1), (i64)(r.next() >> 1) });
	int n = (int)r.range(1, tier ? 12 : 8);
	for (int i = 0; i < n; i++)
		p.add("burst", { r.range(0, NUNIT - 1), r.range(0, NPHASE - 1), r.chance(0.15), r.range(0, NUNIT - 1), r.range(0, 400), r.chance(0.2) ? 400 : r.range(1, 24), r.chance(0.7) ? 1 : 7 });
}

static u64 bits(double d) { u64 b; memcpy(&b, &d, 8); return d != d ? 1 : b; }

static void exec(const Plan& p)
{
	int cfg = 0;
	std::vector<std::string> args = { "run", "0" };
	std::vector<Step> toks;
	for (auto& s : p.steps)
	{
		if (s.k == "prog") { cfg = (int)((u64)s.arg(0) % NCFG); args[1] = std::to_string((u64)s.arg(1)); shape(s.arg(1)); }
		else if (s.k == "burst")
		{
			i64 a[7];
			static const i64 mod[7] = { NUNIT, NPHASE, 2, NUNIT, 100000, 401, 1000 };
			std::string t;
			for (int i = 0; i < 7; i++) { a[i] = (i64)((u64)s.arg(i) % mod[i]); t += (i ? ":" : "") + std::to_string(a[i]); shape(a[i]); }
			args.push_back(t);
			toks.push_back(s);
			toks.back().a.assign(a, a + 7);
			ctr(a[1] == 0 ? F_EARLY : a[1] == 1 ? F_LATE : a[1] == 2 ? F_TPL : F_DTOR);
			if (a[2]) ctr(F_THREAD);
			ctr(a[0] == a[3] ? F_SAME : F_CROSS);
		}
	}
	shape(cfg);
	ctr(F_CFG0 + cfg);
	ctr(F_INIT, ninit[cfg]);
	if (ref[cfg].empty()) { rep_violation("crash", "a %s program fails even when nothing uses the library during initialisation", CFG[cfg]); return; }
	std::string o;
	int st = spawn(cfg, args, o);
	std::vector<Out> out = records(o);
	evbytes(o.data(), o.size());
	g_sh->steps += out.size();
	g_sh->simtime_us += out.size();
	// reference values by unit and probe
	std::vector<const Out*> r[NUNIT];
	for (auto& x : ref[cfg]) { if ((int)r[x.unit].size() <= x.probe) r[x.unit].resize(x.probe + 1); r[x.unit][x.probe] = &x; }
	auto where = [&](const Out& x) -> std::string
	{
		if (x.token < 0) return "in main";
		const Step& t = toks[x.token];
		static const char* const ph[] = { "the first static object", "the last static object", "a template's static member", "the destructor of the first static object", "the destructor of the last static object", "the destructor of a template's static member" };
		return "in " + std::string(ph[t.a[1]]) + " of unit " + std::to_string(t.a[0]) + (t.a[2] ? ", on a thread it started" : "");
	};
	for (auto& x : out)
	{
		const Info& in = infos[cfg][x.unit][x.probe];
		const Out& want = *r[x.unit][x.probe];
		for (int k = 0; k < x.n; k++)
		{
			ctr(F_CMP);
			if (x.n != want.n || bits(x.v[k]) != bits(want.v[k]))
			{
				rep_violation(in.nwant == -1 ? "early-call" : "early-constant", "%s of unit %d, used %s, has element %d = %.9g; fully initialised it is %.9g (%s program)", in.name.c_str(), x.unit, where(x).c_str(), k, x.v[k], want.v[k], CFG[cfg]);
				return;
			}
		}
		if (in.nwant >= 0)
		{
			double eps = in.name.size() > 7 && in.name.compare(in.name.size() - 7, 7, "<float>") == 0 ? 1.2e-7 : 2.3e-16;
			for (int k = 0; k < in.nwant; k++)
				if (k >= x.n || !(fabs(x.v[k] - in.want[k]) <= eps * fabs(in.want[k])))
				{
					rep_violation("constant", "%s of unit %d, used %s, has element %d = %.17g, its documented value is %.17g (%s program)", in.name.c_str(), x.unit, where(x).c_str(), k, k < x.n ? x.v[k] : NAN, in.want[k], CFG[cfg]);
					return;
				}
		}
		if (in.nwant == -2)
			for (int k = 0; k < x.n; k++)
			{
				const Out* other = nullptr;
				for (auto& y : ref[0]) if (y.unit == x.unit && y.probe == x.probe) other = &y;
				if (other && bits(other->v[k]) != bits(x.v[k]))
				{
					rep_violation("constant", "%s of unit %d has element %d = %.17g in a %s program and %.17g in a %s program", in.name.c_str(), x.unit, k, x.v[k], CFG[cfg], other->v[k], CFG[0]);
					return;
				}
			}
	}
	if (st != 0) rep_violation("crash", "a %s program ended with status %d during initialisation or use", CFG[cfg], st);
}

Scenario g_scenarios[] = { { "C07", gen, prepare, exec, names, nullptr, nullptr, false } };
int g_nscenarios = 1;
int main(int argc, char** argv) { return sim_main(argc, argv); }
