// C25: timers, dials, sticks and clamped accumulators that run for a long time on a faulty clock.
#include "h.h"
#include <map>
using namespace mathlib;
namespace {
enum { TICKS, WRAPS, BACKWARD, JUMPS, RESYNCS, EDGES, CLAMPS, INTS, STICKS, DEAD, MONO, INVERSE, BEYOND, DIALS, WATER, ODO, SAVES, CRASHES, NT = 6 };
const L PI_ = 3.1415926535897932384626433832795L;

template <class R> struct World
{
	struct Timer { bool on = false; int kind = 0; R x, period; L total = 0, err = 0; };
	struct Clamp { bool on = false; R x, a, b; int ix, ia, ib; };
	struct Stick { bool on = false; R threshold; int curve; std::map<R, R> seen; };
	struct Dial { R deg = 0, rad = 0; L ref = 0, err = 0; };
	struct Water { bool any = false; R hi = 0, lo = 0; int ihi = 0, ilo = 0; L rhi, rlo; int jhi, jlo; };
	Timer timer[NT], stimer[NT];
	Clamp clamp[NT], sclamp[NT];
	Stick stick[NT];
	Dial dial, sdial;
	Water water, swater;
	Vec2<R> at2 = Vec2<R>(0, 0); Vec3<R> at3 = Vec3<R>(0, 0, 0);
	L eps = epsOf<R>();

	bool advance(Timer& t, R d)
	{
		L P = t.period, was = t.x;
		R in = t.x + d;
		t.total += d;
		t.err += 4 * eps * (fabsl(was) + fabsl((L)d) + P);
		t.x = t.kind == 0 ? fmodPositive(in, t.period) : t.kind == 1 ? fmodCentered(in, t.period) : mathlib::fmod(in, t.period);
		evd(t.x);
		ctr(TICKS);
		L lo = t.kind == 0 ? 0 : t.kind == 1 ? -P / 2 : in >= 0 ? 0 : -P, hi = t.kind == 0 ? P : t.kind == 1 ? P / 2 : in >= 0 ? P : 0;
		L slack = t.kind == 1 ? 4 * eps * P : 0;
		static const char* const NAME[] = { "fmodPositive", "fmodCentered", "fmod" };
		if (!(t.x >= lo - slack && t.x <= hi + slack)) { rep_violation("range", "%s(%.9Lg, %.9Lg) is %.9Lg, outside %.9Lg..%.9Lg", NAME[t.kind], (L)in, P, (L)t.x, lo, hi); return false; }
		// a whole period only where a remainder rounds up to it
		L exact = fmodl((L)in, P); if (exact < 0) exact += P;
		if (t.kind != 1 && fabsl((L)t.x) == P && fminl(exact, P - exact) <= eps * P && exact <= P / 2 && !(t.kind == 2)) { rep_violation("range", "%s(%.9Lg, %.9Lg) is the whole period", NAME[t.kind], (L)in, P); return false; }
		if (t.kind == 2 && !(fabsl((L)t.x) < P)) { rep_violation("range", "%s(%.9Lg, %.9Lg) is a whole period", NAME[t.kind], (L)in, P); return false; }
		if (fabsl((L)in) > P) ctr(WRAPS);
		// the remainder itself is exact up to the rounding of its operands
		L own = fabsl(remainderl((L)t.x - (L)in, P));
		if (!(own <= 4 * eps * (fabsl((L)in) + P))) { rep_violation("phase", "%s(%.9Lg, %.9Lg) is %.9Lg, off by %.6Lg from a whole number of periods", NAME[t.kind], (L)in, P, (L)t.x, own); return false; }
		if (t.err > P / 8) { ctr(RESYNCS); t.total = t.x; t.err = 0; }
		else
		{
			L off = fabsl(remainderl((L)t.x - t.total, P));
			if (!(off <= t.err)) { rep_violation("phase", "a timer of period %.9Lg shows %.9Lg after %.9Lg in total, off by %.6Lg (tolerance %.3Lg)", P, (L)t.x, t.total, off, t.err); return false; }
		}
		return true;
	}
	static const char* curveName(int c) { static const char* const n[] = { "Zero", "Linear", "Parabolic", "Cubic", "Exponential", "Cosine" }; return n[c]; }
	bool read(Stick& s, R v)
	{
		ctr(STICKS);
		static const ResponseCurveType T[] = { ResponseCurveType::Zero, ResponseCurveType::Linear, ResponseCurveType::Parabolic, ResponseCurveType::Cubic, ResponseCurveType::Exponential, ResponseCurveType::Cosine };
		R o = evaluate(v, s.threshold, T[s.curve]), n = evaluate((R)-v, s.threshold, T[s.curve]);
		evd(o);
		L tol = 1e-6L;
		auto it = s.seen.find(v);
		if (it != s.seen.end()) { if (it->second != o) { rep_violation("history", "%s stick with threshold %.6Lg at %.9Lg reads %.9Lg, earlier %.9Lg", curveName(s.curve), (L)s.threshold, (L)v, (L)o, (L)it->second); return false; } return true; }
		if (fabsl(v) <= s.threshold) { ctr(DEAD); if (o != 0) { rep_violation("dead zone", "%s stick with threshold %.6Lg at %.9Lg reads %.9Lg", curveName(s.curve), (L)s.threshold, (L)v, (L)o); return false; } }
		if (!(fabsl((L)o + (L)n) <= tol)) { rep_violation("symmetry", "%s stick with threshold %.6Lg reads %.9Lg at %.9Lg and %.9Lg on the other side", curveName(s.curve), (L)s.threshold, (L)o, (L)v, (L)n); return false; }
		// the curve itself
		L w = fabsl(v) <= s.threshold ? 0 : (fabsl((L)v) - s.threshold) / (1 - s.threshold), f;
		switch (s.curve) { case 0: f = 0; break; case 1: f = w; break; case 2: f = w * w; break; case 3: f = w * w * w; break; case 4: f = exp2l(w) - 1; break; default: f = w >= 1 ? 1 : 1 - cosl(w * PI_ / 2); break; }
		if (v < 0) f = -f;
		L room = 64 * eps * (1 + fabsl(f)) / (1 - s.threshold) + (s.curve >= 4 ? 1e-6L : 0);
		if (!(fabsl((L)o - f) <= room)) { rep_violation("curve", "%s stick with threshold %.6Lg at %.9Lg reads %.9Lg, not %.9Lg", curveName(s.curve), (L)s.threshold, (L)v, (L)o, f); return false; }
		it = s.seen.emplace(v, o).first;
		auto next = it; ++next;
		ctr(MONO);
		if (it != s.seen.begin()) { auto prev = it; --prev; if (!(o >= prev->second - tol)) { rep_violation("order", "%s stick reads %.9Lg at %.9Lg and %.9Lg at %.9Lg", curveName(s.curve), (L)prev->second, (L)prev->first, (L)o, (L)v); return false; } }
		if (next != s.seen.end() && !(next->second >= o - tol)) { rep_violation("order", "%s stick reads %.9Lg at %.9Lg and %.9Lg at %.9Lg", curveName(s.curve), (L)o, (L)v, (L)next->second, (L)next->first); return false; }
		return true;
	}
	void run(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			int i = (int)md(st.arg(0), NT);
			if (st.k == "timer")
			{
				Timer& t = timer[i];
				t = Timer(); t.on = true; t.kind = (int)md(st.arg(1), 3);
				shape(t.kind);
				t.period = (R)(fx(1 + md(st.arg(2), 1 << 20)) * ldexp(1, (int)md(st.arg(4), 21) - 10));
				t.x = 0;
				advance(t, (R)(fx(st.arg(3)) * (double)t.period));
			}
			else if (st.k == "tick" || st.k == "run")
			{
				R d = (R)fx(st.arg(1));
				int n = st.k == "run" ? (int)md(st.arg(2), 300) : 1;
				if (st.arg(1) < 0) ctr(BACKWARD);
				if (st.arg(1) > 1000000) ctr(JUMPS);
				for (int k = 0; k < n; k++) for (auto& t : timer)
				{
					if (!t.on) continue;
					g_sh->simtime_us += (u64)fabsl((L)d * 1000);
					if (!advance(t, d)) return;
				}
			}
			else if (st.k == "edge")
			{
				// a step that lands right beside a multiple of the period
				Timer& t = timer[i];
				if (!t.on) continue;
				ctr(EDGES);
				R target = t.period * (R)(st.arg(1) % 5) * (st.arg(3) % 2 ? R(0.5) : R(1));
				i64 k = st.arg(2) % 4;
				for (i64 j = 0; j < (k < 0 ? -k : k); j++) target = std::nextafter(target, k < 0 ? R(-1e30) : R(1e30));
				if (!advance(t, target - t.x)) return;
			}
			else if (st.k == "clamp")
			{
				Clamp& c = clamp[i];
				c = Clamp(); c.on = true;
				R u = (R)fx(st.arg(1)), v = (R)fx(st.arg(2));
				c.a = u < v ? u : v; c.b = u < v ? v : u; c.x = c.a;
				int iu = (int)(st.arg(1) % 2000), iv = (int)(st.arg(2) % 2000);
				c.ia = iu < iv ? iu : iv; c.ib = iu < iv ? iv : iu; c.ix = c.ia;
			}
			else if (st.k == "push")
			{
				Clamp& c = clamp[i];
				if (!c.on) continue;
				R in = st.arg(2) % 8 == 1 ? c.a : st.arg(2) % 8 == 2 ? c.b : (R)(c.x + (R)fx(st.arg(1)));
				int iin = st.arg(2) % 8 == 1 ? c.ia : st.arg(2) % 8 == 2 ? c.ib : c.ix + (int)(st.arg(1) % 3000);
				R want = in > c.b ? c.b : in < c.a ? c.a : in;
				int iwant = iin > c.ib ? c.ib : iin < c.ia ? c.ia : iin;
				c.x = clippedBetween(in, c.a, c.b); c.ix = clippedBetween(iin, c.ia, c.ib);
				ctr(CLAMPS); ctr(INTS); evd(c.x); ev(c.ix);
				if (c.x != want) { rep_violation("clip", "clippedBetween(%.9Lg, %.9Lg, %.9Lg) is %.9Lg", (L)in, (L)c.a, (L)c.b, (L)c.x); return; }
				if (c.ix != iwant) { rep_violation("clip", "clippedBetween(%d, %d, %d) is %d", iin, c.ia, c.ib, c.ix); return; }
			}
			else if (st.k == "stick")
			{
				Stick& s = stick[i];
				s = Stick(); s.on = true; s.curve = (int)md(st.arg(1), 6); s.threshold = (R)((double)md(st.arg(2), 1000) / 1024);
				shape(s.curve);
			}
			else if (st.k == "read")
			{
				Stick& s = stick[i];
				if (!s.on) continue;
				R v = (R)((double)(st.arg(1) % 4097) / 4096);
				int n = 1;
				switch (md(st.arg(2), 8))
				{
				case 0: v = s.threshold; break;
				case 1: v = std::nextafter(s.threshold, R(2)); break;
				case 2: v = -s.threshold; break;
				case 3: v = std::nextafter((R)-s.threshold, R(-2)); break;
				case 4: v = (st.arg(1) & 1) ? R(1) : R(-1); break;
				case 5: n = 20; break;
				default: break;
				}
				for (int k = 0; k < n; k++) if (!read(s, (R)(v + (R)k * (R)(st.arg(3) % 200) / R(4096)))) return;
			}
			else if (st.k == "inverse")
			{
				// the cosine or sine of an angle that rounding has carried past one
				R v = (R)((double)(st.arg(1) % 4097) / 4096);
				if (st.arg(2) % 3 == 1) v = (st.arg(1) & 1) ? R(1) : R(-1);
				i64 k = st.arg(3) % 6;
				for (i64 j = 0; j < (k < 0 ? -k : k); j++) v = std::nextafter(v, k < 0 ? R(-10) : R(10));
				if (st.arg(2) % 7 == 2) v *= R(1.5);
				ctr(INVERSE);
				if (fabsl(v) > 1) ctr(BEYOND);
				L cl = v > 1 ? 1 : v < -1 ? -1 : (L)v;
				R a = mathlib::acos(v), b = mathlib::asin(v);
				evd(a); evd(b);
				if (!(fabsl((L)a - acosl(cl)) <= 8 * eps * PI_ && a >= 0 && a <= PI_ * (1 + eps))) { rep_violation("inverse", "acos(%.17Lg) is %.9Lg", (L)v, (L)a); return; }
				if (!(fabsl((L)b - asinl(cl)) <= 8 * eps * PI_ && fabsl(b) <= PI_ / 2 * (1 + eps))) { rep_violation("inverse", "asin(%.17Lg) is %.9Lg", (L)v, (L)b); return; }
			}
			else if (st.k == "dial")
			{
				// degrees and radians of one dial, either may be rebuilt from the other
				R d = (R)fx(st.arg(1));
				ctr(DIALS);
				dial.ref += d;
				dial.deg += d; dial.rad += degreeToRadian(d);
				dial.err += 8 * eps * (fabsl(dial.ref) + fabsl(d));
				if (st.arg(2) % 4 == 1) dial.deg = radianToDegree(dial.rad);
				if (st.arg(2) % 4 == 2) dial.rad = degreeToRadian(dial.deg);
				evd(dial.deg); evd(dial.rad);
				if (!(fabsl((L)dial.deg - dial.ref) <= dial.err && fabsl((L)dial.rad * 180 / PI_ - dial.ref) <= dial.err)) { rep_violation("dial", "a dial turned by %.9Lg degrees in total shows %.9Lg degrees and %.9Lg radians", dial.ref, (L)dial.deg, (L)dial.rad); return; }
			}
			else if (st.k == "level")
			{
				R v = (R)(fx(st.arg(1)) * ldexp(1, (int)md(st.arg(3), 41) - 30)); int iv = (int)(st.arg(1) % 100000);
				if (st.arg(2) & 2) { v = std::nextafter((st.arg(2) & 4) ? water.hi : water.lo, (st.arg(2) & 8) ? R(1e30) : R(-1e30)); iv = ((st.arg(2) & 4) ? water.ihi : water.ilo) + ((st.arg(2) & 8) ? 1 : -1); }
				ctr(WATER);
				if (!water.any) { water.any = true; water.hi = water.lo = v; water.ihi = water.ilo = iv; water.rhi = water.rlo = v; water.jhi = water.jlo = iv; }
				water.hi = st.arg(2) & 1 ? mathlib::max(water.hi, v) : mathlib::max(v, water.hi); water.lo = st.arg(2) & 1 ? mathlib::min(water.lo, v) : mathlib::min(v, water.lo);
				water.ihi = mathlib::max(water.ihi, iv); water.ilo = mathlib::min(iv, water.ilo);
				if (v > water.rhi) water.rhi = v;
				if (v < water.rlo) water.rlo = v;
				if (iv > water.jhi) water.jhi = iv;
				if (iv < water.jlo) water.jlo = iv;
				evd(water.hi); evd(water.lo);
				if (water.hi != water.rhi || water.lo != water.rlo || water.ihi != water.jhi || water.ilo != water.jlo) { rep_violation("level", "the high and low water marks are %.9Lg and %.9Lg, not %.9Lg and %.9Lg", (L)water.hi, (L)water.lo, water.rhi, water.rlo); return; }
				if (mathlib::abs(v) != (R)fabsl(v)) { rep_violation("level", "abs(%.9Lg) is %.9Lg", (L)v, (L)mathlib::abs(v)); return; }
			}
			else if (st.k == "walk")
			{
				R unit = (R)ldexp(1, (int)md(st.arg(4), 41) - 30);
				Vec3<R> to((R)fx(st.arg(1)) * unit, (R)fx(st.arg(2)) * unit, (R)fx(st.arg(3)) * unit);
				if (st.arg(5) & 1) to = at3 + to * R(1e-3);
				Vec2<R> to2(to.x, to.y);
				ctr(ODO);
				L d2 = (L)(to2.x - (L)at2.x) * (to2.x - (L)at2.x) + (L)(to2.y - (L)at2.y) * (to2.y - (L)at2.y), d3 = (L3::of(to) - L3::of(at3)).dot(L3::of(to) - L3::of(at3));
				L got[4] = { (L)distance(at2, to2), (L)distanceSqr(at2, to2), (L)distance(at3, to), (L)distanceSqr(at3, to) }, want[4] = { sqrtl(d2), d2, sqrtl(d3), d3 };
				for (int k = 0; k < 4; k++) { evd(got[k]); if (!(fabsl(got[k] - want[k]) <= 8 * eps * want[k])) { rep_violation("distance", "a %s of a step is %.9Lg, not %.9Lg", k & 1 ? "squared distance" : "distance", got[k], want[k]); return; } }
				at2 = to2; at3 = to;
			}
			else if (st.k == "save") { ctr(SAVES); for (int k = 0; k < NT; k++) { stimer[k] = timer[k]; sclamp[k] = clamp[k]; } sdial = dial; swater = water; }
			else if (st.k == "crash") { ctr(CRASHES); for (int k = 0; k < NT; k++) { timer[k] = stimer[k]; clamp[k] = sclamp[k]; } dial = sdial; water = swater; }
		}
	}
};
}
const char* const names_C25[] = { "timer advances", "advances past a period", "backward clock steps", "forward clock jumps", "timers resynchronised", "advances to beside a multiple of the period", "clamped pushes", "integer clamps", "stick readings", "readings in the dead zone", "readings compared for order", "inverse cosines and sines", "arguments beyond one", "dial turns", "water marks", "distances", "checkpoints", "crashes with restore", nullptr };
void gen_C25(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	int n = (int)r.range(8, tier ? 120 : 60), nt = (int)r.range(1, NT);
	auto any = [&]() { return r.range(-(1 << 20), 1 << 20); };
	auto timer = [&](int i) { p.add("timer", { i, r.range(0, 2), r.chance(0.3) ? 6433 : r.range(0, 1 << 20), r.range(-4000, 4000), r.chance(0.7) ? 10 : r.range(0, 20) }); };
	for (int i = 0; i < nt; i++) timer(i);
	p.add("clamp", { 0, any(), any() });
	p.add("stick", { 0, r.range(0, 5), r.chance(0.3) ? 0 : r.range(0, 999) });
	p.add("save", { 0 });
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		int a = (int)r.range(0, nt - 1);
		if (u < 0.22) p.add("tick", { 0, r.chance(0.1) ? 0 : r.chance(0.2) ? -r.range(1, 100000) : r.chance(0.1) ? r.range(1000001, 100000000) : r.range(1, 20000) });
		else if (u < 0.28) p.add("run", { 0, r.chance(0.2) ? -r.range(1, 2000) : r.range(1, 2000), r.range(2, 80) });
		else if (u < 0.38) p.add("edge", { a, r.range(-4, 4), r.range(-3, 3), r.range(0, 1) });
		else if (u < 0.40) timer(a);
		else if (u < 0.43) p.add("clamp", { a, any(), any() });
		else if (u < 0.53) p.add("push", { r.chance(0.6) ? 0 : a, any(), r.range(0, 20) });
		else if (u < 0.56) p.add("stick", { r.range(0, 2), r.range(0, 5), r.chance(0.3) ? 0 : r.range(0, 999) });
		else if (u < 0.74) p.add("read", { r.range(0, 2), r.range(-4096, 4096), r.range(0, 7), r.range(-199, 199) });
		else if (u < 0.80) p.add("inverse", { 0, r.range(-4096, 4096), r.range(0, 20), r.range(-5, 5) });
		else if (u < 0.86) p.add("dial", { 0, r.range(-400000, 400000), r.range(0, 3) });
		else if (u < 0.91) p.add("level", { 0, any(), r.range(0, 15), r.chance(0.7) ? 30 : r.range(0, 40) });
		else if (u < 0.95) p.add("walk", { 0, any(), any(), any(), r.chance(0.5) ? 30 : r.range(0, 40), r.range(0, 1) });
		else if (u < 0.975) p.add("save", { 0 });
		else p.add("crash", { 0 });
	}
}
void exec_C25(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<double>)->run(p); else (new World<float>)->run(p);
}
