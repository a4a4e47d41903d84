#include "core.h"
#include <cstdarg>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <set>
#include <algorithm>

Shared* g_sh = nullptr;

std::string Plan::text() const
{
	std::string s = "plan " + prop + " seed " + std::to_string(seed) + " index " + std::to_string(index) + "\n";
	Scenario* sc = nullptr;
	for (int i = 0; i < g_nscenarios; i++) if (prop == g_scenarios[i].id) sc = &g_scenarios[i];
	for (size_t i = 0; i < steps.size(); i++)
	{
		s += steps[i].k;
		for (size_t j = 0; j < steps[i].a.size(); j++) s += " " + std::to_string(steps[i].a[j]);
		if (sc && sc->describe)
		{
			std::string d = sc->describe(steps[i]);
			if (!d.empty()) s += "   # " + d;
		}
		s += "\n";
	}
	return s;
}

bool Plan::parse(const std::string& t)
{
	steps.clear();
	size_t p = 0;
	bool head = false;
	while (p < t.size())
	{
		size_t e = t.find('\n', p);
		if (e == std::string::npos) e = t.size();
		std::string line = t.substr(p, e - p);
		p = e + 1;
		size_t h = line.find('#');
		if (h != std::string::npos) line.resize(h);
		std::vector<std::string> w;
		size_t q = 0;
		while (q < line.size())
		{
			while (q < line.size() && isspace((unsigned char)line[q])) q++;
			size_t r = q;
			while (r < line.size() && !isspace((unsigned char)line[r])) r++;
			if (r > q) w.push_back(line.substr(q, r - q));
			q = r;
		}
		if (w.empty()) continue;
		if (w[0] == "plan")
		{
			if (w.size() < 6) return false;
			prop = w[1]; seed = strtoull(w[3].c_str(), 0, 10); index = strtoull(w[5].c_str(), 0, 10);
			head = true;
			continue;
		}
		if (w[0] == "violation" || w[0] == "message" || w[0] == "hash") continue;
		Step s;
		s.k = w[0];
		for (size_t i = 1; i < w.size(); i++) s.a.push_back(strtoll(w[i].c_str(), 0, 10));
		steps.push_back(s);
	}
	return head;
}

static void put(char* dst, size_t n, const char* s) { snprintf(dst, n, "%s", s); }

void rep_violation(const char* cls, const char* fmt, ...)
{
	if (g_sh->status == 2) return; // first one counts
	put(g_sh->cls, sizeof g_sh->cls, cls);
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
	va_end(ap);
	for (char* c = g_sh->msg; *c; c++) if (*c == '\n') *c = ' ';
	g_sh->status = 2;
}
void rep_known(const char* id, const char* fmt, ...)
{
	put(g_sh->known, sizeof g_sh->known, id);
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(g_sh->knownMsg, sizeof g_sh->knownMsg, fmt, ap);
	va_end(ap);
}
bool rep_violated() { return g_sh->status == 2; }
void rep_error(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
	va_end(ap);
	put(g_sh->cls, sizeof g_sh->cls, "harness");
	g_sh->status = 3;
	_exit(3);
}

static void onsig(int sig, siginfo_t* si, void*)
{
	if (g_sh->status != 2)
	{
		put(g_sh->cls, sizeof g_sh->cls, "crash");
		char* m = g_sh->msg;
		extern const char* sim_where();
		snprintf(m, sizeof g_sh->msg, "signal %d (%s) at address %p in %s", sig,
			sig == SIGSEGV ? "invalid memory access" : sig == SIGFPE ? "arithmetic trap" : sig == SIGABRT ? "abort" : sig == SIGILL ? "illegal instruction" : "fault",
			sig == SIGSEGV ? si->si_addr : nullptr, sim_where());
		g_sh->status = 2;
	}
	_exit(2);
}
extern "C" __attribute__((weak)) const char* sim_where_impl() { return "the call under test"; }
const char* sim_where() { return sim_where_impl(); }

// per-run event hashes ignore the crash address (it is in the message only)

void sim_sigsetup(void* alt, size_t n)
{
	stack_t ss;
	memset(&ss, 0, sizeof ss);
	ss.ss_sp = alt; ss.ss_size = n;
	sigaltstack(&ss, nullptr);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = onsig;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL };
	for (int s : sigs) sigaction(s, &sa, nullptr);
}

static void* altstack() { static char a[65536]; return a; }

static Scenario* find(const std::string& id)
{
	for (int i = 0; i < g_nscenarios; i++) if (id == g_scenarios[i].id) return &g_scenarios[i];
	fprintf(stderr, "unknown property %s\n", id.c_str());
	exit(3);
}

static void resetShared()
{
	memset((void*)g_sh, 0, offsetof(Shared, sw));
}

static int g_timeout = 30;

// One run in a child of its own. Returns status.
static int runOne(Scenario* sc, const Plan& p)
{
	if (sc->prepare) sc->prepare(p);
	resetShared();
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (pid == 0)
	{
		alarm(g_timeout);
		sim_sigsetup(altstack(), 65536);
		sc->exec(p);
		if (g_sh->status == 0) g_sh->status = 1;
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (g_sh->status == 0)
	{
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
		{
			put(g_sh->cls, sizeof g_sh->cls, "hang");
			snprintf(g_sh->msg, sizeof g_sh->msg, "run did not finish (no progress within %d s of wall time)", g_timeout);
			g_sh->status = 2;
		}
		else
		{
			put(g_sh->cls, sizeof g_sh->cls, "crash");
			snprintf(g_sh->msg, sizeof g_sh->msg, "process died (wait status %d) in the simulated program", st);
			g_sh->status = 2;
		}
	}
	return g_sh->status;
}

struct Outcome { int status; std::string cls, msg; u64 hash; };
static Outcome outcome(int st)
{
	Outcome o; o.status = st; o.cls = g_sh->cls; o.msg = g_sh->msg; o.hash = g_sh->hash;
	return o;
}

static int g_minruns = 0;
static bool fails(Scenario* sc, const Plan& p, const std::string& cls)
{
	g_minruns++;
	int st = runOne(sc, p);
	return st == 2 && cls == g_sh->cls;
}

static double now()
{
	struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

// Delta debugging over steps, then over arguments. Bounded by number of runs, not by time.
static Plan minimise(Scenario* sc, Plan p, const std::string& cls, int budget)
{
	g_minruns = 0;
	size_t chunk = std::max<size_t>(1, p.steps.size() / 2);
	while (g_minruns < budget)
	{
		bool any = false;
		for (size_t i = 0; i < p.steps.size() && g_minruns < budget;)
		{
			Plan q = p;
			size_t e = std::min(q.steps.size(), i + chunk);
			q.steps.erase(q.steps.begin() + i, q.steps.begin() + e);
			if (fails(sc, q, cls)) { p = q; any = true; }
			else i += chunk;
		}
		if (chunk > 1) chunk = (chunk + 1) / 2;
		else if (!any) break;
	}
	for (int round = 0; round < 2 && g_minruns < budget; round++)
	{
		bool any = false;
		for (size_t i = 0; i < p.steps.size() && g_minruns < budget; i++)
			for (size_t j = 0; j < p.steps[i].a.size() && g_minruns < budget; j++)
			{
				i64 v = p.steps[i].a[j];
				if (v == 0) continue;
				i64 cand[3] = { 0, v / 2, v > 0 ? v - 1 : v + 1 };
				for (i64 c : cand)
				{
					if (c == v) continue;
					Plan q = p;
					q.steps[i].a[j] = c;
					if (fails(sc, q, cls)) { p = q; any = true; break; }
				}
			}
		if (!any) break;
	}
	return p;
}

static std::string slurp(const char* f)
{
	FILE* fp = fopen(f, "rb");
	if (!fp) { perror(f); exit(3); }
	std::string s; char b[4096]; size_t n;
	while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n);
	fclose(fp);
	return s;
}

static Plan makePlan(Scenario* sc, u64 seed, u64 i, int tier)
{
	Plan p;
	p.prop = sc->id; p.seed = seed; p.index = i;
	u64 h = 0;
	for (const char* c = sc->id; *c; c++) h = mix64(h, (unsigned char)*c);
	Rng r(mix64(mix64(seed, h), i));
	sc->gen(p, r, tier);
	return p;
}

// JSON string escape
static std::string js(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

int sim_main(int argc, char** argv)
{
	std::string cmd = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> o;
	for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
	g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	u64 seed = strtoull(o["--seed"].c_str(), 0, 10);
	int tier = o["--tier"] == "thorough" ? 1 : 0;
	if (o.count("--timeout")) g_timeout = atoi(o["--timeout"].c_str());
	if (cmd == "replay")
	{
		Plan p;
		if (!p.parse(slurp(o["--file"].c_str()))) { fprintf(stderr, "bad plan file\n"); return 3; }
		Scenario* sc = find(p.prop);
		int st = runOne(sc, p);
		if (g_sh->known[0]) printf("known %s\nknownmessage %s\n", g_sh->known, g_sh->knownMsg);
		printf("status %d\nclass %s\nhash %016llx\nmessage %s\n", st, g_sh->cls, (unsigned long long)g_sh->hash, g_sh->msg);
		if (st == 3) return 3;
		return st == 2 ? 1 : 0;
	}
	Scenario* sc = find(o["--prop"]);
	if (cmd == "gen")
	{
		Plan p = makePlan(sc, seed, strtoull(o["--index"].c_str(), 0, 10), tier);
		fputs(p.text().c_str(), stdout);
		return 0;
	}
	if (cmd == "counters")
	{
		for (int i = 0; sc->counters[i]; i++) puts(sc->counters[i]);
		return 0;
	}
	if (cmd != "run") { fprintf(stderr, "usage: run|replay|gen|counters\n"); return 3; }

	// run indices from, from+stride, ... < to; stop at first violation
	u64 from = strtoull(o["--from"].c_str(), 0, 10), to = strtoull(o["--to"].c_str(), 0, 10);
	u64 stride = o.count("--stride") ? strtoull(o["--stride"].c_str(), 0, 10) : 1;
	u64 hashEvery = o.count("--hash-every") ? strtoull(o["--hash-every"].c_str(), 0, 10) : 0;
	double tlimit = o.count("--tlimit") ? atof(o["--tlimit"].c_str()) : 1e9;
	std::string outdir = o["--out"];
	std::set<u64> shapes;
	u64 tot[NCTR] = { 0 };
	u64 runs = 0, steps = 0, simtime = 0;
	u64 runsWith[NCTR] = { 0 };
	std::map<std::string, u64> knownRuns;
	double t0 = now();
	for (u64 i = from; i < to; i += stride)
	{
		if (now() - t0 > tlimit) { printf("{\"truncated\": %llu}\n", (unsigned long long)i); break; }
		Plan p = makePlan(sc, seed, i, tier);
		int st = runOne(sc, p);
		runs++;
		steps += g_sh->steps;
		simtime += g_sh->simtime_us;
		for (int c = 0; c < NCTR; c++) { tot[c] += g_sh->ctr[c]; if (g_sh->ctr[c]) runsWith[c]++; }
		shapes.insert(g_sh->shape);
		if (g_sh->known[0]) knownRuns[g_sh->known]++;
		if (st == 3) { printf("{\"error\": %s, \"index\": %llu}\n", js(g_sh->msg).c_str(), (unsigned long long)i); return 3; }
		if (hashEvery && i % hashEvery == 0)
			printf("{\"index\": %llu, \"hash\": \"%016llx\"}\n", (unsigned long long)i, (unsigned long long)g_sh->hash);
		if (st == 2)
		{
			Outcome first = outcome(st);
			// gate 1: same plan again, same class and hash
			double r0 = now();
			Outcome again = outcome(runOne(sc, p));
			double slow = now() - r0;
			bool stable = again.status == 2 && again.cls == first.cls && again.hash == first.hash;
			bool same = again.status == 2 && again.cls == first.cls;
			for (int k = 0; k < 6 && !same; k++) { again = outcome(runOne(sc, p)); same = again.status == 2 && again.cls == first.cls; }
			if (!same)
			{
				printf("{\"error\": %s, \"index\": %llu}\n", js("violation did not reproduce: " + first.cls + " / " + first.msg + " then " + again.cls + " / " + again.msg).c_str(), (unsigned long long)i);
				return 3;
			}
			Plan q = p;
			if (sc->concretise)
			{
				Plan c = p;
				if (sc->concretise(c, *g_sh) && fails(sc, c, first.cls)) q = c;
			}
			Plan m = minimise(sc, q, first.cls, slow > 5 ? 6 : slow > 0.5 ? 100 : 1500);
			Outcome fin = outcome(runOne(sc, m));
			for (int k = 0; k < 6 && fin.status != 2 && !stable; k++) fin = outcome(runOne(sc, m));
			if (fin.status != 2) { printf("{\"error\": \"minimised plan does not fail\", \"index\": %llu}\n", (unsigned long long)i); return 3; }
			std::string file = outdir + "/" + sc->id + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".replay";
			FILE* f = fopen(file.c_str(), "wb");
			if (!f) { perror(file.c_str()); return 3; }
			std::string msg = fin.msg;
			fprintf(f, "%sviolation %s\nmessage %s\nhash %016llx\n", m.text().c_str(), fin.cls.c_str(), msg.c_str(), (unsigned long long)fin.hash);
			fclose(f);
			printf("{\"violation\": %s, \"message\": %s, \"replay\": %s, \"index\": %llu, \"hash\": \"%016llx\", \"stable\": %s, \"steps_before\": %zu, \"steps_after\": %zu, \"minimise_runs\": %d}\n",
				js(fin.cls).c_str(), js(msg).c_str(), js(file).c_str(), (unsigned long long)i, (unsigned long long)fin.hash, stable ? "true" : "false", p.steps.size(), m.steps.size(), g_minruns);
			break;
		}
	}
	printf("{\"runs\": %llu, \"steps\": %llu, \"simtime_us\": %llu, \"wall\": %.3f, \"counters\": {", (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)simtime, now() - t0);
	for (int c = 0; sc->counters[c]; c++)
		printf("%s%s: [%llu, %llu]", c ? ", " : "", js(sc->counters[c]).c_str(), (unsigned long long)tot[c], (unsigned long long)runsWith[c]);
	printf("}, \"known\": {");
	bool f0 = true;
	for (auto& k : knownRuns) { printf("%s%s: %llu", f0 ? "" : ", ", js(k.first).c_str(), (unsigned long long)k.second); f0 = false; }
	printf("}, \"shapes\": [");
	bool f1 = true;
	for (u64 s : shapes) { printf("%s\"%llx\"", f1 ? "" : ",", (unsigned long long)s); f1 = false; }
	printf("]}\n");
	return 0;
}
