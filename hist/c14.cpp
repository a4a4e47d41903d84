// C14: animations that interpolate on the reading of a faulty clock.
#include "h.h"
#include <map>
using namespace mathlib;
namespace {
enum { SAMPLES, BEFORE, AFTER, INSIDE, STALL, BACK, JUMP, PURE, MONO, ULP, CRASH, SWEEP, MODES0, NMODE = 29, NA = 6 };
const char* const MODE[NMODE] = { "Linear", "Parabolic", "Cubic", "Exponential", "Cosine", "QuadraticIn", "QuadraticOut", "QuadraticInOut", "CubicIn", "CubicOut", "CubicInOut", "QuarticIn", "QuarticOut", "QuarticInOut", "QuinticIn", "QuinticOut", "QuinticInOut",
	"SinusoidalIn", "SinusoidalOut", "SinusoidalInOut", "ExponentialIn", "ExponentialOut", "ExponentialInOut", "Exponential2In", "Exponential2Out", "Exponential2InOut", "CircularIn", "CircularOut", "CircularInOut" };

L pinned(int way, L t)
{
	const L P = 0.000976563f, I = 1.00098f;
	switch (way)
	{
	case 0: return (powl(2, 10 * (t - 1)) - P) * I;
	case 1: return 1 - (powl(2, -10 * t) - P) * I;
	default: return t < 0.5L ? (powl(2, 20 * t - 10) - P) * I / 2 : (2 - (powl(2, 10 - 20 * t) - P) * I) / 2;
	}
}
template <class R> struct Anim
{
	int mode = 0, kind = 0;     // kind 0 scalar, 1 int, 2 Vec2, 3 Vec3, 4 the ratio itself
	L t0 = 0, T = 1;
	R from[3], to[3];
	int ifrom = 0, ito = 0;
	std::map<R, std::vector<L>> seen;
	bool on = false;
};
template <class R> void value(const Anim<R>& a, R ratio, L* v, int& n)
{
	InterpolationMode m = (InterpolationMode)a.mode;
	n = 1;
	switch (a.kind)
	{
	case 0: v[0] = lerp(a.from[0], a.to[0], ratio, m); break;
	case 1: v[0] = lerp(a.ifrom, a.ito, ratio, m); break;
	case 2: { Vec2<R> w = lerp(Vec2<R>(a.from[0], a.from[1]), Vec2<R>(a.to[0], a.to[1]), ratio, m); v[0] = w.x; v[1] = w.y; n = 2; break; }
	case 3: { Vec3<R> w = lerp(Vec3<R>(a.from[0], a.from[1], a.from[2]), Vec3<R>(a.to[0], a.to[1], a.to[2]), ratio, m); v[0] = w.x; v[1] = w.y; v[2] = w.z; n = 3; break; }
	default: v[0] = interpolationRatio(ratio, m); break;
	}
}
template <class R> void sample(Anim<R>& a, R ratio)
{
	L v[3]; int n;
	value(a, ratio, v, n);
	ctr(SAMPLES);
	ctr(MODES0 + a.mode);
	if (ratio <= 0) ctr(BEFORE); else if (ratio >= 1) ctr(AFTER); else ctr(INSIDE);
	L eps = epsOf<R>();
	static const char* const KIND[5] = { "scalar", "int", "Vec2", "Vec3", "ratio" };
	auto it = a.seen.find(ratio);
	if (it != a.seen.end())
	{
		ctr(PURE);
		for (int k = 0; k < n; k++) if (it->second[k] != v[k]) return rep_violation("history", "%s animation of a %s at ratio %.9g gave %.9Lg, earlier %.9Lg", MODE[a.mode], KIND[a.kind], (double)ratio, v[k], it->second[k]);
		return;
	}
	it = a.seen.emplace(ratio, std::vector<L>(v, v + n)).first;
	auto prev = it, next = it;
	bool hasPrev = it != a.seen.begin(), hasNext = ++next != a.seen.end();
	if (hasPrev) --prev;
	for (int k = 0; k < n; k++)
	{
		L f = a.kind == 1 ? a.ifrom : a.kind == 4 ? 0 : a.from[k], t = a.kind == 1 ? a.ito : a.kind == 4 ? 1 : a.to[k];
		L span = fabsl(t - f), mag = 8 * eps * (fabsl(f) + fabsl(t));
		L tol = mag + (a.mode < 26 ? 64 * eps : 2 * sqrtl(eps)) * span;
		if (a.mode >= 20 && a.mode <= 22)
		{
			// the exponential family uses rounded constants that existing tests demand: it leaves its ends by up to 2.5e-6 of the way
			if (ratio > 0 && ratio < 1 && !(v[k] >= fminl(f, t) - tol && v[k] <= fmaxl(f, t) + tol) && fabsl(v[k] - f - (t - f) * pinned(a.mode - 20, ratio)) <= tol)
				rep_known("C14-exponential", "%s animation is at %.17Lg of its way at ratio %.17g", MODE[a.mode], (v[k] - f) / (t - f), (double)ratio);
			tol = mag + 1e-5L * span;
		}
		if (a.kind == 1 && tol < 1) tol = 1;
		L edge = a.kind == 1 ? (mag < 1 ? 0 : mag) : mag;
		evd(v[k]);
		if (ratio <= 0 && !(fabsl(v[k] - f) <= edge)) return rep_violation("start", "%s animation of a %s from %.9Lg to %.9Lg is at %.9Lg before its start (ratio %.9g)", MODE[a.mode], KIND[a.kind], f, t, v[k], (double)ratio);
		if (ratio >= 1 && !(fabsl(v[k] - t) <= edge)) return rep_violation("end", "%s animation of a %s from %.9Lg to %.9Lg is at %.9Lg after its end (ratio %.9g)", MODE[a.mode], KIND[a.kind], f, t, v[k], (double)ratio);
		if (!(v[k] >= fminl(f, t) - tol && v[k] <= fmaxl(f, t) + tol)) return rep_violation("between", "%s animation of a %s from %.9Lg to %.9Lg is at %.9Lg at ratio %.9g", MODE[a.mode], KIND[a.kind], f, t, v[k], (double)ratio);
		L s = t >= f ? 1 : -1;
		if (hasPrev) { ctr(MONO); if (!((v[k] - prev->second[k]) * s >= -tol)) return rep_violation("backwards", "%s animation of a %s from %.9Lg to %.9Lg is at %.9Lg at ratio %.9g and back at %.9Lg at ratio %.9g", MODE[a.mode], KIND[a.kind], f, t, prev->second[k], (double)prev->first, v[k], (double)ratio); }
		if (hasNext) { ctr(MONO); if (!((next->second[k] - v[k]) * s >= -tol)) return rep_violation("backwards", "%s animation of a %s from %.9Lg to %.9Lg is at %.9Lg at ratio %.9g and back at %.9Lg at ratio %.9g", MODE[a.mode], KIND[a.kind], f, t, v[k], (double)ratio, next->second[k], (double)next->first); }
	}
}
template <class R> void run(const Plan& p)
{
	std::vector<Anim<R>>& an = *new std::vector<Anim<R>>(NA);
	L clock = 0, gran = 0;
	auto tick = [&](L d)
	{
		clock += d;
		g_sh->simtime_us += (u64)fabsl(d * 1024);
		L read = gran > 0 ? floorl(clock / gran) * gran : clock;
		for (auto& a : an) if (a.on && !rep_violated()) sample(a, (R)((R)(read - a.t0) / (R)a.T));
	};
	for (auto& st : p.steps)
	{
		if (rep_violated()) return;
		for (char ch : st.k) shape((unsigned char)ch);
		if (st.k == "anim")
		{
			Anim<R>& a = an[md(st.arg(0), NA)];
			a = Anim<R>();
			a.mode = (int)md(st.arg(1), NMODE); a.kind = (int)md(st.arg(2), 5);
			shape(a.mode * 8 + a.kind);
			a.t0 = clock + fx(st.arg(3)); a.T = fx(1 + md(st.arg(4), 1 << 20));
			for (int k = 0; k < 3; k++) { a.from[k] = (R)(fx(st.arg(5 + k)) * ldexp(1, (int)md(st.arg(11), 61) - 30)); a.to[k] = (R)(fx(st.arg(8 + k)) * ldexp(1, (int)md(st.arg(11), 61) - 30)); }
			a.ifrom = (int)md(st.arg(5), 1 << 28) - (1 << 27); a.ito = (int)md(st.arg(8), 1 << 28) - (1 << 27);
			if (st.arg(12) > 0) { Anim<R>& b = an[md(st.arg(12) - 1, NA)]; if (b.on) { a.t0 = b.t0; a.T = b.T; } }   // on the same clock window
			a.on = true;
			tick(0);
		}
		else if (st.k == "gran") gran = fabsl(fx(st.arg(0)));
		else if (st.k == "tick")
		{
			i64 d = st.arg(0);
			if (d == 0) ctr(STALL); else if (d < 0) ctr(BACK); else if (d > 60000) ctr(JUMP);
			shape(d == 0 ? 0 : d < 0 ? 1 : 2);
			tick(fx(d));
		}
		else if (st.k == "run") { int n = (int)md(st.arg(1), 400); for (int i = 0; i < n && !rep_violated(); i++) tick(fx(st.arg(0))); }
		else if (st.k == "ulp")
		{
			// a reading right beside a special point of an animation
			Anim<R>& a = an[md(st.arg(0), NA)];
			if (!a.on) continue;
			static const R special[] = { 0, R(0.5), 1, R(0.25), R(0.75) };
			R r = special[md(st.arg(1), 5)];
			i64 k = st.arg(2) % 40;
			for (i64 i = 0; i < (k < 0 ? -k : k); i++) r = std::nextafter(r, k < 0 ? R(-10) : R(10));
			ctr(ULP);
			sample(a, r);
		}
		else if (st.k == "sweep")
		{
			// a run of readings close together, around any part of an animation
			Anim<R>& a = an[md(st.arg(0), NA)];
			if (!a.on) continue;
			L at = (L)md(st.arg(1), 4097) / 4096, width = ldexpl(1, -(int)md(st.arg(2), 14));
			int n = (int)md(st.arg(3), 200) + 1;
			ctr(SWEEP);
			for (int i = 0; i <= n && !rep_violated(); i++) sample(a, (R)(at + width * ((L)i / n - 0.5L)));
		}
		else if (st.k == "crash")
		{
			// the process restarts: nothing but the animation's parameters survives, readings repeat
			ctr(CRASH);
			Anim<R>& a = an[md(st.arg(0), NA)];
			if (!a.on) continue;
			auto seen = a.seen;
			a.seen.clear();
			for (auto& s : seen) { if (rep_violated()) return; L v[3]; int n; value(a, s.first, v, n); for (int k = 0; k < n; k++) if (v[k] != s.second[k]) return rep_violation("history", "%s animation at ratio %.9g gave %.9Lg before and %.9Lg after a restart", MODE[a.mode], (double)s.first, s.second[k], v[k]); }
			a.seen = seen;
		}
	}
}
}
const char* const names_C14[] = { "values sampled", "samples at or before the start", "samples at or after the end", "samples inside", "stalled readings", "backward clock steps", "forward clock jumps", "repeated ratios compared bit for bit", "neighbouring samples compared for order", "readings within ulps of a special point", "restarts", "dense sweeps",
	"Linear", "Parabolic", "Cubic", "Exponential", "Cosine", "QuadraticIn", "QuadraticOut", "QuadraticInOut", "CubicIn", "CubicOut", "CubicInOut", "QuarticIn", "QuarticOut", "QuarticInOut", "QuinticIn", "QuinticOut", "QuinticInOut",
	"SinusoidalIn", "SinusoidalOut", "SinusoidalInOut", "ExponentialIn", "ExponentialOut", "ExponentialInOut", "Exponential2In", "Exponential2Out", "Exponential2InOut", "CircularIn", "CircularOut", "CircularInOut", nullptr };
void gen_C14(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	int na = (int)r.range(1, NA);
	i64 T[NA];
	auto anim = [&](int i)
	{
		i64 amp = r.chance(0.3) ? 10 : r.chance(0.5) ? 200000 : 100000000;
		T[i] = r.chance(0.2) ? r.range(0, 40) : r.range(100, 40000);
		Step s("anim", { i, r.range(0, NMODE - 1), r.range(0, 4), r.range(-2000, 8000), T[i] });
		for (int k = 0; k < 6; k++) s.a.push_back(r.chance(0.1) ? 0 : r.range(-amp, amp));
		if (r.chance(0.05)) for (int k = 0; k < 3; k++) s.a[8 + k] = s.a[5 + k];
		s.a.push_back(r.chance(0.7) ? 30 : r.range(0, 60));
		s.a.push_back(r.chance(0.4) ? 1 + r.range(0, na - 1) : 0);
		p.steps.push_back(s);
	};
	for (int i = 0; i < na; i++) anim(i);
	int n = (int)r.range(5, tier ? 80 : 40);
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		int a = (int)r.range(0, na - 1);
		if (u < 0.45) p.add("tick", { r.chance(0.1) ? 0 : r.chance(0.12) ? -r.range(1, 30000) : r.chance(0.08) ? r.range(60001, 4000000) : r.chance(0.3) ? r.range(1, 50) : r.range(1, 8000) });
		else if (u < 0.60) p.add("run", { r.range(1, 1 + T[a] / 20), r.range(5, 60) });
		else if (u < 0.74) p.add("ulp", { a, r.range(0, 4), r.range(-6, 6) });
		else if (u < 0.84) p.add("sweep", { a, r.chance(0.6) ? 512 * r.range(0, 8) : r.range(0, 4096), r.range(0, 11), r.range(4, 120) });
		else if (u < 0.88) p.add("gran", { r.chance(0.4) ? 0 : r.range(1, 2000) });
		else if (u < 0.93) p.add("crash", { a });
		else anim(a);
	}
}
void exec_C14(const Plan& p)
{
	bool dbl = !p.steps.empty() && p.steps[0].k == "type" && (p.steps[0].arg(0) & 1);
	if (dbl) run<double>(p); else run<float>(p);
}
