// C11: forward-difference walkers through step histories with checkpoints, crashes, restores, copies and thread changes.
#include "h.h"
#include <new>
#include <thread>
using namespace mathlib;
namespace {
enum { STEPS, CHECKS, CKPT, CRASH, RESTORE, COPY, THREAD, REBUILD, INTERLEAVE, FLOATS, DOUBLES, BEYOND };
enum { NW = 4 };

struct Curve
{
	L p[4][3], d, M;
	L a[3], b[3], c[3];
	// running error bounds of a walk, one entry per step
	std::vector<L> bp, bt;
	L e0, e1, e2, e3, t0, t1, t2, eps;
	void init(L e)
	{
		eps = e;
		M = 0;
		for (auto& q : p) for (L v : q) M = fmaxl(M, fabsl(v));
		for (int k = 0; k < 3; k++)
		{
			a[k] = p[3][k] - 3 * p[2][k] + 3 * p[1][k] - p[0][k];
			b[k] = 3 * (p[2][k] - 2 * p[1][k] + p[0][k]);
			c[k] = 3 * (p[1][k] - p[0][k]);
		}
		L K = 64 * eps * M, d2 = d * d, d3 = d2 * d;
		e0 = K; e1 = K * (d + d2 + d3); e2 = K * (d2 + d3); e3 = K * d3;
		t0 = K; t1 = K * (d + d2); t2 = K * d2;
		bp.assign(1, e0); bt.assign(1, t0);
	}
	L point(int k, L t) const { return ((a[k] * t + b[k]) * t + c[k]) * t + p[0][k]; }
	L tangent(int k, L t) const { return (3 * a[k] * t + 2 * b[k]) * t + c[k]; }
	void extend(size_t n)
	{
		while (bp.size() <= n)
		{
			L t = d * (L)(bp.size() - 1), P = 0, D = 0, D2 = 0, T = 0, DT = 0;
			for (int k = 0; k < 3; k++)
			{
				L p0 = point(k, t), p1 = point(k, t + d), p2 = point(k, t + 2 * d);
				P = fmaxl(P, fabsl(p0)); D = fmaxl(D, fabsl(p1 - p0)); D2 = fmaxl(D2, fabsl(p2 - 2 * p1 + p0));
				L q0 = tangent(k, t), q1 = tangent(k, t + d);
				T = fmaxl(T, fabsl(q0)); DT = fmaxl(DT, fabsl(q1 - q0));
			}
			e0 += e1 + 2 * eps * (P + D + e0); e1 += e2 + 2 * eps * (D + D2 + e1); e2 += e3 + 2 * eps * (D2 + e2);
			t0 += t1 + 2 * eps * (T + DT + t0); t1 += t2 + 2 * eps * (DT + t1);
			bp.push_back(e0); bt.push_back(t0);
		}
	}
};

template <class R> struct World
{
	typedef BezierSegment3FwdDiff<R> W;
	struct Slot { void* mem = nullptr; W* w = nullptr; int curve = 0; size_t n = 0; };
	Curve cur[NW];
	Slot live[NW], saved[NW];
	int last = -1;

	void poison(Slot& s) { if (s.w) { memset(s.mem, 0xA5, sizeof(W)); s.w = nullptr; } }
	void make(Slot& s, int c)
	{
		if (!s.mem) s.mem = malloc(sizeof(W));
		Vec3<R> p[4];
		for (int i = 0; i < 4; i++) p[i] = Vec3<R>((R)cur[c].p[i][0], (R)cur[c].p[i][1], (R)cur[c].p[i][2]);
		s.w = new (s.mem) W(p[0], p[1], p[2], p[3], (R)cur[c].d);
		s.curve = c; s.n = 0;
	}
	void copy(Slot& to, const Slot& from, bool assign)
	{
		if (assign && to.w) *to.w = *from.w;
		else { if (!to.mem) to.mem = malloc(sizeof(W)); to.w = new (to.mem) W(*from.w); }
		to.curve = from.curve; to.n = from.n;
	}
	void check(const Slot& s, const char* when)
	{
		Curve& c = cur[s.curve];
		c.extend(s.n);
		L t = c.d * (L)s.n;
		Vec3<R> P = s.w->currentPoint(), T = s.w->currentTangent();
		const R pv[3] = { P.x, P.y, P.z }, tv[3] = { T.x, T.y, T.z };
		ctr(CHECKS);
		for (int k = 0; k < 3; k++)
		{
			evd(pv[k]); evd(tv[k]);
			if (!(fabsl(pv[k] - c.point(k, t)) <= c.bp[s.n]))
				return rep_violation("point", "after %zu steps of %.9Lg (%s) coordinate %d is %.9g, the curve is at %.12Lg (bound %.3Lg)", s.n, c.d, when, k, (double)pv[k], c.point(k, t), c.bp[s.n]);
			if (!(fabsl(tv[k] - c.tangent(k, t)) <= c.bt[s.n]))
				return rep_violation("tangent", "after %zu steps of %.9Lg (%s) tangent coordinate %d is %.9g, the curve's is %.12Lg (bound %.3Lg)", s.n, c.d, when, k, (double)tv[k], c.tangent(k, t), c.bt[s.n]);
		}
	}
	void steps(Slot& s, int n, bool every, const char* when)
	{
		for (int i = 0; i < n && !rep_violated(); i++)
		{
			s.w->stepForward();
			s.n++;
			ctr(STEPS);
			if (every) check(s, when);
		}
		g_sh->simtime_us += n;
	}
	void run(const Plan& p)
	{
		ctr(sizeof(R) == 4 ? FLOATS : DOUBLES);
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			shape(st.arg(0));
			int i = (int)md(st.arg(0), NW), j = (int)md(st.arg(1), NW);
			if (st.k == "curve")
			{
				L sc = ldexpl(1, (int)md(st.arg(14), 41) - 20);
				for (int q = 0; q < 12; q++) cur[i].p[q / 3][q % 3] = (R)((L)fx(st.arg(1 + q)) * sc);
				cur[i].d = (R)(1.0L / (1 + md(st.arg(13), 4096)));
				cur[i].init(epsOf<R>());
				for (auto& s : saved) if (s.curve == i) poison(s);
				for (auto& s : live) if (s.curve == i) poison(s);
				make(live[i], i);
				check(live[i], "at the start");
				continue;
			}
			Slot& s = live[i];
			if (st.k == "restore")
			{
				if (!saved[j].w) continue;
				copy(s, saved[j], st.arg(2) & 1);
				ctr(RESTORE);
				check(s, "restored from a checkpoint");
				continue;
			}
			if (!s.w) continue;
			if (st.k == "step")
			{
				int n = (int)md(st.arg(1), 5000);
				if (last >= 0 && last != i) ctr(INTERLEAVE);
				last = i;
				steps(s, n, true, "stepping");
				if (s.n * cur[s.curve].d > 1) ctr(BEYOND);
			}
			else if (st.k == "thread")
			{
				int n = (int)md(st.arg(1), 2000);
				ctr(THREAD);
				std::thread([&] { steps(s, n, true, "stepping on another thread"); }).join();
			}
			else if (st.k == "ckpt") { copy(saved[j], s, st.arg(2) & 1); ctr(CKPT); check(saved[j], "in a checkpoint"); check(s, "after being checkpointed"); }
			else if (st.k == "crash") { poison(s); ctr(CRASH); }
			else if (st.k == "copy")
			{
				if (i == j) continue;
				copy(live[j], s, st.arg(2) & 1); ctr(COPY);
				check(live[j], "copied"); check(s, "after being copied");
			}
			else if (st.k == "rebuild")
			{
				size_t n = s.n; int c = s.curve;
				poison(s); make(s, c); ctr(REBUILD);
				if (n > 20000) n = 20000;
				steps(s, (int)n, false, "rebuilt");
				check(s, "rebuilt from the start");
			}
		}
		for (int i = 0; i < NW; i++) if (live[i].w && !rep_violated()) check(live[i], "at the end");
		for (int i = 0; i < NW; i++) if (saved[i].w && !rep_violated()) check(saved[i], "in a checkpoint, at the end");
	}
};
}
const char* const names_C11[] = { "steps walked", "positions compared", "checkpoints taken", "crashes", "restores", "copies between walkers", "walks resumed on another thread", "rebuilds by walking again", "switches between walkers", "runs in float", "runs in double", "walks beyond the segment's end", nullptr };
void gen_C11(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	int nw = (int)r.range(1, NW);
	for (int i = 0; i < nw; i++)
	{
		Step s("curve", { i });
		i64 amp = r.chance(0.3) ? 1024 : 100 * 1024;
		for (int k = 0; k < 12; k++) s.a.push_back(r.chance(0.1) ? 0 : r.range(-amp, amp));
		if (r.chance(0.1)) for (int k = 0; k < 9; k++) s.a[4 + k] = s.a[1 + k % 3];   // degenerate: all points equal
		static const i64 ns[] = { 0, 1, 2, 3, 7, 9, 15, 31, 99, 255, 999, 1023, 4095 };
		i64 steps = r.chance(0.5) ? ns[r.below(13)] : r.range(0, 4095);
		if (r.chance(0.35))
		{
			// curves with exact coincidences: two points the walk visits one after the other, or two of its differences, are equal
			i64 kind = r.range(0, 6), small = r.chance(0.5) ? 4 : 1000;
			for (int k = 0; k < 3; k++)
			{
				i64 a = 1024 * r.range(-small, small), b = 1024 * r.range(-small, small), c = 1024 * r.range(-small, small), e = 1024 * r.range(-small, small);
				if (kind == 0) { e = 7 * a - 3 * b - 3 * c; steps = 1; }                    // B(0) == B(1/2)
				else if (kind == 1) { e = a; c = b; steps = ns[r.below(7)]; }                // there and back again
				else if (kind == 2) { e = a; steps = 0; }                                    // B(0) == B(1)
				else if (kind == 3) e = 3 * c - 3 * b + a;                                   // no third difference
				else if (kind == 4) { c = 2 * b - a; e = 3 * b - 2 * a; }                    // a straight line walked evenly
				else if (kind == 5) { b = a; if (r.chance(0.5)) c = e; }                     // at rest at the ends
				else { b = a; c = a; }                                                       // at rest at the start
				s.a[1 + k] = a; s.a[4 + k] = b; s.a[7 + k] = c; s.a[10 + k] = e;
			}
		}
		s.a.push_back(steps);
		s.a.push_back(r.chance(0.6) ? 20 : r.range(0, 40));
		p.steps.push_back(s);
	}
	int n = (int)r.range(4, tier ? 60 : 30);
	for (int i = 0; i < n; i++)
	{
		i64 w = r.range(0, nw - 1);
		double u = r.unit();
		if (u < 0.5) p.add("step", { w, r.chance(0.8) ? r.range(1, 40) : r.range(1, 1500) });
		else if (u < 0.62) p.add("ckpt", { w, r.range(0, NW - 1), r.range(0, 1) });
		else if (u < 0.70) p.add("crash", { w });
		else if (u < 0.84) p.add("restore", { w, r.range(0, NW - 1), r.range(0, 1) });
		else if (u < 0.90) p.add("copy", { w, r.range(0, nw - 1), r.range(0, 1) });
		else if (u < 0.95) p.add("thread", { w, r.range(1, 60) });
		else p.add("rebuild", { w });
	}
}
void exec_C11(const Plan& p)
{
	bool dbl = !p.steps.empty() && p.steps[0].k == "type" && (p.steps[0].arg(0) & 1);
	if (dbl) { auto* w = new World<double>; w->run(p); }
	else { auto* w = new World<float>; w->run(p); }
}
