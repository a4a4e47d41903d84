// C33: panels that open and close along easing curves on a faulty clock, watched from the front and, mirrored, from behind: every curve has the shape of its name,
// Out is In played backwards, InOut is the two halves of both, all in the precision of the number.
#include "h.h"
using namespace mathlib;
namespace {
enum { TICKS, STALL, BACK, JUMP, SHAPE, MIRROR, HALVES, MIXED, EDGE, SWEEP, CRASH, FAM0, NP = 4 };
typedef InterpolationMode M;
// single curves first, then the families of In, Out, InOut
const char* const FAM[] = { "Linear", "Parabolic", "Cubic", "Exponential", "Cosine", "Quadratic", "CubicIn/Out", "Quartic", "Quintic", "Sinusoidal", "ExponentialIn/Out", "Exponential2", "Circular" };
const M SINGLE[] = { M::Linear, M::Parabolic, M::Cubic, M::Exponential, M::Cosine };
const M IN[] = { M::QuadraticIn, M::CubicIn, M::QuarticIn, M::QuinticIn, M::SinusoidalIn, M::ExponentialIn, M::Exponential2In, M::CircularIn };
const M OUT[] = { M::QuadraticOut, M::CubicOut, M::QuarticOut, M::QuinticOut, M::SinusoidalOut, M::ExponentialOut, M::Exponential2Out, M::CircularOut };
const M BOTH[] = { M::QuadraticInOut, M::CubicInOut, M::QuarticInOut, M::QuinticInOut, M::SinusoidalInOut, M::ExponentialInOut, M::Exponential2InOut, M::CircularInOut };
const L PI_L = 3.14159265358979323846264338327950288L;
struct Ref { L v, tol; };
// the curve of family f that starts slowly, at t within 0..1; tolerances in units of the last place of e
Ref slow(int f, L t, L e)
{
	auto power = [&](int n) { L v = 1; for (int i = 0; i < n; i++) v *= t; return Ref{ v, 16 * e * v + std::numeric_limits<float>::denorm_min() }; };
	switch (f)
	{
	case 0: return { t, 0 };
	case 1: case 5: return power(2);
	case 2: case 6: return power(3);
	case 3: return { powl(2, t) - 1, 8 * e };
	case 4: case 9: { L s = sinl(t * PI_L / 4); return { 2 * s * s, 8 * e }; }
	case 7: return power(4);
	case 8: return power(5);
	case 10: return { (powl(2, 10 * (t - 1)) - powl(2, -10)) / (1 - powl(2, -10)), 48 * e };
	case 11: return { powl(2, 20 * (t - 1)), 64 * e };
	default: { L r = 1 - t * t; return { 1 - sqrtl(r < 0 ? 0 : r), 4 * e + sqrtl(r + 16 * e) - sqrtl(r < 16 * e ? 0 : r - 16 * e) }; }
	}
}
// way 0 In, 1 Out, 2 InOut
Ref curve(int f, int way, L t, L e)
{
	if (t <= 0) return { 0, 0 };
	if (t >= 1) return { 1, 0 };
	if (f < 5 || way == 0) return slow(f, t, e);
	if (way == 1) { Ref r = slow(f, 1 - t, e); return { 1 - r.v, fmaxl(16 * e, r.tol * 2 + 8 * e) }; }
	if (t < 0.5L) { Ref r = slow(f, 2 * t, e); return { r.v / 2, f < 9 ? r.tol : r.tol + 4 * e }; }
	Ref r = slow(f, 2 - 2 * t, f == 12 ? 4 * e : e);
	return { 1 - r.v / 2, fmaxl(64 * e, r.tol * 2 + 8 * e) };
}
// the exponential family with the rounded constants that existing tests demand
L pinned(int way, L t)
{
	const L P = 0.000976563f, I = 1.00098f;
	switch (way)
	{
	case 0: return (powl(2, 10 * (t - 1)) - P) * I;
	case 1: return 1 - (powl(2, -10 * t) - P) * I;
	default: return t < 0.5L ? (powl(2, 20 * t - 10) - P) * I / 2 : (2 - (powl(2, 10 - 20 * t) - P) * I) / 2;
	}
}
M mode(int f, int way) { return f < 5 ? SINGLE[f] : way == 0 ? IN[f - 5] : way == 1 ? OUT[f - 5] : BOTH[f - 5]; }
const char* const WAY[] = { "In", "Out", "InOut" };
template <class R> struct World
{
	struct Panel { int f = 0; i64 u = 0; int dir = 1; R from = 0, to = 1; R p[3], q[3]; int a = 0, b = 100; } panel[NP], saved[NP];
	i64 gran = 1;
	bool look(const Panel& p, R t)
	{
		L e = epsOf<R>(), v[3];
		int ways = p.f < 5 ? 1 : 3;
		ctr(FAM0 + p.f);
		for (int w = 0; w < ways; w++)
		{
			ctr(SHAPE);
			R y = interpolationRatio(t, mode(p.f, w));
			v[w] = y; evd(y);
			Ref r = curve(p.f, w, t, e);
			if (p.f == 10 && fabsl(y - r.v) > r.tol && fabsl(y - pinned(w, t)) <= r.tol) { rep_known("C33-exponential", "Exponential %s is %.17g at %.17g, should be %.17g", WAY[w], (double)y, (double)t, (double)r.v); if (!mixed(p, t, mode(p.f, w), y)) return false; continue; }
			if (!(fabsl(y - r.v) <= r.tol)) { rep_violation("shape", "the curve %s %s is %.17g at %.17g, should be %.17g", FAM[p.f], p.f < 5 ? "" : WAY[w], (double)y, (double)t, (double)r.v); return false; }
			if (!(y >= (p.f == 10 ? -48 * e : 0) && y <= 1 + 64 * e)) { rep_violation("range", "the curve %s %s is %.17g at %.17g", FAM[p.f], p.f < 5 ? "" : WAY[w], (double)y, (double)t); return false; }
			if (!mixed(p, t, mode(p.f, w), y)) return false;
		}
		if (ways == 1) return true;
		R s = 1 - t;
		if (R(1) - s == t && s < 1 && t > 0 && t < 1)
		{
			// seen from behind, time and way are reversed
			ctr(MIRROR);
			L o = interpolationRatio(s, mode(p.f, 1)), io = interpolationRatio(s, mode(p.f, 2));
			L t1 = curve(p.f, 0, t, e).tol + curve(p.f, 1, s, e).tol + 2 * e, t2 = curve(p.f, 2, t, e).tol + curve(p.f, 2, s, e).tol + 2 * e + (p.f == 10 ? 3e-6L : 0);   // (C33-exponential)
			if (!(fabsl(v[0] + o - 1) <= t1)) { rep_violation("mirror", "%sIn is %.17Lg at %.17g, %sOut %.17Lg as far from the end: they should add up to 1", FAM[p.f], v[0], (double)t, FAM[p.f], o); return false; }
			if (!(fabsl(v[2] + io - 1) <= t2)) { rep_violation("mirror", "%sInOut is %.17Lg at %.17g and %.17Lg as far from the end: they should add up to 1", FAM[p.f], v[2], (double)t, io); return false; }
		}
		if (t < R(0.5) && t > 0)
		{
			ctr(HALVES);
			L i = interpolationRatio(R(2) * t, mode(p.f, 0));
			L tol = curve(p.f, 0, 2 * (L)t, e).tol + curve(p.f, 2, t, e).tol;
			if (!(fabsl(v[2] - i / 2) <= tol)) { rep_violation("halves", "%sInOut is %.17Lg at %.17g, half of %sIn at twice that is %.17Lg", FAM[p.f], v[2], (double)t, FAM[p.f], i / 2); return false; }
		}
		return true;
	}
	// everything that moves along the curve
	bool mixed(const Panel& p, R t, M m, R y)
	{
		ctr(MIXED);
		auto at = [&](R got, R a, R b, const char* what)
		{
			L want = (L)a + ((L)b - a) * y, tol = 4 * epsOf<R>() * (fabsl(a) + fabsl(b));
			if (fabsl(got - want) <= tol) return true;
			rep_violation("mixed", "a %s from %.9g to %.9g at %.9g along its curve (%.9g) is %.9g, should be %.9Lg", what, (double)a, (double)b, (double)t, (double)y, (double)got, want);
			return false;
		};
		if (!at(lerp(p.from, p.to, t, m), p.from, p.to, "number")) return false;
		Vec2<R> a2 = lerp(Vec2<R>(p.p[0], p.p[1]), Vec2<R>(p.q[0], p.q[1]), t, m);
		if (!at(a2.x, p.p[0], p.q[0], "planar vector") || !at(a2.y, p.p[1], p.q[1], "planar vector")) return false;
		Vec3<R> a3 = lerp(Vec3<R>(p.p[0], p.p[1], p.p[2]), Vec3<R>(p.q[0], p.q[1], p.q[2]), t, m);
		if (!at(a3.x, p.p[0], p.q[0], "vector") || !at(a3.y, p.p[1], p.q[1], "vector") || !at(a3.z, p.p[2], p.q[2], "vector")) return false;
		int n = lerp(p.a, p.b, t, m);
		L want = p.a + (L)(p.b - p.a) * y;   // ends this near each other are met exactly
		if (!(fabsl(n - want) < 1.1L) || n < std::min(p.a, p.b) || n > std::max(p.a, p.b) || (t >= 1 && n != p.b) || (t <= 0 && n != p.a)) { rep_violation("mixed", "a whole number from %d to %d at %.9g along its curve is %d", p.a, p.b, (double)t, n); return false; }
		return true;
	}
	bool all() { for (auto& p : panel) if (!look(p, (R)ldexpl(p.dir > 0 ? p.u : 4096 - p.u, -12))) return false; return true; }
	void run(const Plan& pl)
	{
		for (auto& p : panel) { for (int k = 0; k < 3; k++) { p.p[k] = 0; p.q[k] = 1; } }
		for (int i = 0; i < NP; i++) saved[i] = panel[i];
		for (auto& st : pl.steps)
		{
			if (rep_violated()) return;
			if (st.k == "type") continue;
			if (st.k == "panel")
			{
				Panel& p = panel[md(st.arg(0), NP)];
				p.f = (int)md(st.arg(1), 13); p.u = 0; p.dir = 1;
				p.from = (R)fx(st.arg(2)); p.to = (R)fx(st.arg(3));
				for (int k = 0; k < 3; k++) { p.p[k] = (R)fx(st.arg(4 + k)); p.q[k] = (R)fx(st.arg(7 + k)); }
				p.a = (int)md(st.arg(2), 2001) - 1000; p.b = (int)md(st.arg(3), 2001) - 1000;
				if (st.arg(4) & 1) { p.a = (int)md(mix64(1, (u64)st.arg(4)), 1 << 30) - (1 << 29); p.b = p.a + (int)md(st.arg(3), st.arg(5) & 1 ? 7 : 400001) - (st.arg(5) & 1 ? 3 : 200000); }   // far from zero, near each other
				shape(100 + p.f);
			}
			else if (st.k == "gran") gran = 1 + md(st.arg(0), 64);
			else if (st.k == "turn") { Panel& p = panel[md(st.arg(0), NP)]; p.dir = -p.dir; shape('t'); }
			else if (st.k == "tick")
			{
				i64 d = st.arg(0);
				ctr(TICKS); if (d == 0) ctr(STALL); else if (d < 0) ctr(BACK); else if (d > 2000) ctr(JUMP);
				shape(d == 0 ? 0 : d < 0 ? 1 : 2);
				g_sh->simtime_us += (u64)(d < 0 ? -d : d) * 244;
				for (auto& p : panel) { p.u += d; if (p.u < -200) p.u = -200; if (p.u > 4296) p.u = 4296; p.u = p.u / gran * gran; }
				if (!all()) return;
			}
			else if (st.k == "sweep")
			{
				ctr(SWEEP); shape('w');
				const Panel& p = panel[md(st.arg(0), NP)];
				L at = (L)md(st.arg(1), 4097) / 4096, width = ldexpl(1, -(int)md(st.arg(2), 20));
				int n = (int)md(st.arg(3), 60) + 1;
				for (int i = 0; i <= n; i++) if (!look(p, (R)(at + width * ((L)i / n - 0.5L)))) return;
			}
			else if (st.k == "edge")
			{
				ctr(EDGE); shape('e');
				const Panel& p = panel[md(st.arg(0), NP)];
				static const R special[] = { 0, R(0.5), 1, R(0.25), R(0.75) };
				R t = special[md(st.arg(1), 5)];
				i64 k = st.arg(2) % 40;
				if (st.arg(3) & 1) t = t + (R)ldexpl(k < 0 ? -1 : 1, -(int)md(k, 40)); else for (i64 i = 0; i < (k < 0 ? -k : k); i++) t = std::nextafter(t, k < 0 ? R(-10) : R(10));
				if (!look(p, t)) return;
			}
			else if (st.k == "save") { for (int i = 0; i < NP; i++) saved[i] = panel[i]; shape('s'); }
			else if (st.k == "crash") { ctr(CRASH); memset((void*)panel, 0xa5, sizeof panel); for (int i = 0; i < NP; i++) panel[i] = saved[i]; shape('c'); if (!all()) return; }
		}
	}
};
}
const char* const names_C33[] = { "ticks", "stalled clock", "clock stepping back", "clock jumping", "curves compared with their shape", "curves compared with their mirror image", "halves compared with the whole", "values moved along a curve", "looks beside a special point", "dense sweeps", "crashes",
	"Linear", "Parabolic", "Cubic", "Exponential", "Cosine", "Quadratic In/Out/InOut", "Cubic In/Out/InOut", "Quartic In/Out/InOut", "Quintic In/Out/InOut", "Sinusoidal In/Out/InOut", "Exponential In/Out/InOut", "Exponential2 In/Out/InOut", "Circular In/Out/InOut", nullptr };
void gen_C33(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	auto panelStep = [&](int i)
	{
		Step s("panel", { i, r.chance(0.15) ? r.range(0, 4) : r.range(5, 12) });
		i64 amp = r.chance(0.5) ? 2000 : 100000000;
		for (int k = 0; k < 8; k++) s.a.push_back(r.chance(0.1) ? 0 : r.range(-amp, amp));
		p.steps.push_back(s);
	};
	for (int i = 0; i < NP; i++) panelStep(i);
	int n = (int)r.range(10, tier ? 90 : 35);
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		int a = (int)r.range(0, NP - 1);
		if (u < 0.5) p.add("tick", { r.chance(0.08) ? 0 : r.chance(0.15) ? -r.range(1, 3000) : r.chance(0.06) ? r.range(2001, 6000) : r.chance(0.3) ? r.range(1, 8) : r.range(1, 900) });
		else if (u < 0.6) p.add("edge", { a, r.range(0, 4), r.range(-39, 39), r.range(0, 1) });
		else if (u < 0.68) p.add("sweep", { a, r.chance(0.6) ? 512 * r.range(0, 8) : r.range(0, 4096), r.range(0, 19), r.range(4, 59) });
		else if (u < 0.78) p.add("turn", { a });
		else if (u < 0.9) panelStep(a);
		else if (u < 0.94) p.add("gran", { r.range(0, 63) });
		else if (u < 0.97) p.add("save", {});
		else p.add("crash", {});
	}
}
void exec_C33(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<float>)->run(p); else (new World<double>)->run(p);
}
