// C13: followers that track a target with the maximum-angle interpolation functions under a faulty clock.
#include "h.h"
using namespace mathlib;
namespace {
enum { UPDATES, ZERO, HUGE_, BACK, RETARGET, CRASH, FLIP, ARRIVED, HOLDS, OPPOSITE, KIND0, NKIND = 7 };
const L PI2 = 6.283185307179586476925286766559L;

inline L wrap(L d) { return remainderl(d, PI2); }
inline L angle3(const L3& a, const L3& b) { L3 u = a.unit(), v = b.unit(); return atan2l(u.cross(v).len(), u.dot(v)); }
struct LQ { L x, y, z, w; };
inline L angleQ(LQ a, LQ b)
{
	// relative rotation conj(a) b
	L w = a.w * b.w + a.x * b.x + a.y * b.y + a.z * b.z;
	L x = a.w * b.x - a.x * b.w - a.y * b.z + a.z * b.y;
	L y = a.w * b.y - a.y * b.w - a.z * b.x + a.x * b.z;
	L z = a.w * b.z - a.z * b.w - a.x * b.y + a.y * b.x;
	return 2 * atan2l(sqrtl(x * x + y * y + z * z), fabsl(w));
}
inline LQ quatOf(const LM& m)
{
	// dominant component of the symmetric 4x4 form, by the largest diagonal term
	L t[4] = { 1 + m.x.x - m.y.y - m.z.z, 1 - m.x.x + m.y.y - m.z.z, 1 - m.x.x - m.y.y + m.z.z, 1 + m.x.x + m.y.y + m.z.z };
	int k = 0;
	for (int i = 1; i < 4; i++) if (t[i] > t[k]) k = i;
	LQ q;
	if (k == 3) q = { m.y.z - m.z.y, m.z.x - m.x.z, m.x.y - m.y.x, t[3] };
	else if (k == 0) q = { t[0], m.x.y + m.y.x, m.z.x + m.x.z, m.y.z - m.z.y };
	else if (k == 1) q = { m.x.y + m.y.x, t[1], m.y.z + m.z.y, m.z.x - m.x.z };
	else q = { m.z.x + m.x.z, m.y.z + m.z.y, t[2], m.x.y - m.y.x };
	return q;
}

// One kind of follower. update() moves the state; dist() compares two states.
template <class R> struct Scalar
{
	typedef R S;
	static S make(const Step& s, int o) { return (R)(fx(s.arg(o)) * 0.1); }
	static S update(const S& a, const S& b, R m, int how, L* ratio)
	{
		if (how & 1) { R r = -7; S v = clerpMaxAngle(a, b, m, r); *ratio = r; return v; }
		return clerpMaxAngle(a, b, m);
	}
	static L dist(const S& a, const S& b) { return fabsl(wrap((L)b - (L)a)); }
	static L tol(const S& a, const S& b) { return epsOf<R>() * 8 * (fabsl(a) + fabsl(b) + PI2); }
	static L near(const S& a, const S& b, L) { return 0; }
	static S same(const S& a, int) { return a; }
	static L length(const S&) { return 0; }
	static void log(const S& a) { evd(a); }
};
template <class R> struct Plane2
{
	typedef Vec2<R> S;
	static S make(const Step& s, int o)
	{
		L a = fx(s.arg(o)) * 0.1, l = 0.25L + fx(md(s.arg(o + 1), 8192));
		int q = (int)md(s.arg(o + 3), 8);
		if (q < 4) { static const int c[4] = { 1, 0, -1, 0 }; return S((R)(c[q] * l), (R)(c[(q + 3) % 4] * l)); }
		return S((R)(l * cosl(a)), (R)(l * sinl(a)));
	}
	static S update(const S& a, const S& b, R m, int how, L*)
	{
		S v = a;
		if (how & 1) return S::fromClerpMaxAngle(a, b, m);
		if (how & 2) { v.clerpMaxAngle(v, b, m); return v; }
		return S().clerpMaxAngle(a, b, m);
	}
	static L dist(const S& a, const S& b) { return fabsl(atan2l((L)a.x * b.y - (L)a.y * b.x, (L)a.x * b.x + (L)a.y * b.y)); }
	static L tol(const S&, const S&) { return epsOf<R>() * 64; }
	static L near(const S&, const S&, L) { return 0; }
	static S same(const S& a, int) { return a; }
	static L length(const S& a) { return sqrtl((L)a.x * a.x + (L)a.y * a.y); }
	static void log(const S& a) { evd(a.x); evd(a.y); }
};
template <class R> struct Space3
{
	typedef Vec3<R> S;
	static S make(const Step& s, int o)
	{
		L3 d = dirOf(s.arg(o), s.arg(o + 1), s.arg(o + 2)).unit() * (0.25L + fx(md(s.arg(o + 3), 8192)));
		return V3<R>(d);
	}
	static S update(const S& a, const S& b, R m, int how, L*)
	{
		S v = a;
		if (how & 1) return S::fromSlerpMaxAngle(a, b, m);
		if (how & 2) { v.slerpMaxAngle(v, b, m); return v; }
		return S().slerpMaxAngle(a, b, m);
	}
	static L dist(const S& a, const S& b) { return angle3(L3::of(a), L3::of(b)); }
	static L tol(const S&, const S&) { return epsOf<R>() * 64; }
	// close to opposite directions the arc is ill-defined: an update there may turn about any axis
	static L near(const S& a, const S& b, L d) { return PI2 / 2 - d < 1e-2L ? 2e-3L : 0; }
	static S same(const S& a, int) { return a; }
	static L length(const S& a) { return L3::of(a).len(); }
	static void log(const S& a) { ev3(L3::of(a)); }
};
template <class R> struct Orient
{
	typedef Quat<R> S;
	static S make(const Step& s, int o)
	{
		L3 d = dirOf(s.arg(o), s.arg(o + 1), s.arg(o + 2));
		S q; q.set(V3<R>(d), (R)(fx(s.arg(o + 3))));
		return q;
	}
	static S update(const S& a, const S& b, R m, int how, L*)
	{
		S v = a;
		if (how & 1) return S::fromSlerpMaxAngle(a, b, m);
		if (how & 2) { v.slerpMaxAngle(v, b, m); return v; }
		return S().slerpMaxAngle(a, b, m);
	}
	static L dist(const S& a, const S& b) { return angleQ({ a.x, a.y, a.z, a.w }, { b.x, b.y, b.z, b.w }); }
	static L tol(const S&, const S&) { return epsOf<R>() * 64; }
	static L near(const S&, const S&, L) { return 0; }
	// the same orientation, written differently
	static S same(const S& a, int how) { S q = a; if (how & 1) q = -q; if (how & 2) q.normalize(); return q; }
	static L length(const S&) { return 0; }
	static void log(const S& a) { evd(a.x); evd(a.y); evd(a.z); evd(a.w); }
};
template <class R> struct Rot2
{
	typedef Mat2<R> S;
	static S make(const Step& s, int o) { S m; m.set((R)(fx(s.arg(o)) * 0.1)); return m; }
	static S update(const S& a, const S& b, R m, int how, L*)
	{
		S v = a;
		if (how & 1) return S::fromSlerpMaxAngle(a, b, m);
		if (how & 2) { v.slerpMaxAngle(v, b, m); return v; }
		return S().slerpMaxAngle(a, b, m);
	}
	static L ang(const S& a) { return atan2l(a.x.y, a.x.x); }
	static L dist(const S& a, const S& b) { return fabsl(wrap(ang(b) - ang(a))); }
	static L tol(const S&, const S&) { return epsOf<R>() * 64; }
	static L near(const S&, const S&, L) { return 0; }
	static S same(const S& a, int how) { S m = a; if (how & 1) m.optimize(); return m; }
	static L length(const S&) { return 0; }
	static void log(const S& a) { evd(a.x.x); evd(a.x.y); }
};
template <class R, class M> struct RotM
{
	typedef M S;
	static const Mat3<R>& rs(const Mat3<R>& m) { return m; }
	static const Mat3<R>& rs(const Mat34<R>& m) { return m.rs; }
	static S make(const Step& s, int o)
	{
		S m; m.set(V3<R>(dirOf(s.arg(o), s.arg(o + 1), s.arg(o + 2))), (R)(fx(s.arg(o + 3))));
		return m;
	}
	static S update(const S& a, const S& b, R m, int how, L*)
	{
		S v = a;
		if (how & 1) return S::fromSlerpMaxAngle(a, b, m);
		if (how & 2) { v.slerpMaxAngle(v, b, m); return v; }
		return S().slerpMaxAngle(a, b, m);
	}
	static L dist(const S& a, const S& b) { return angleQ(quatOf(LM::of(rs(a))), quatOf(LM::of(rs(b)))); }
	static L tol(const S&, const S&) { return epsOf<R>() * 64; }
	static L near(const S&, const S&, L) { return 0; }
	static S same(const S& a, int how) { S m = a; if (how & 1) m.optimize(); return m; }
	static L length(const S&) { return 0; }
	static void log(const S& a) { LM m = LM::of(rs(a)); ev3(m.x); ev3(m.y); ev3(m.z); }
};

template <class R, class F> void follow(const Plan& p)
{
	typedef typename F::S S;
	Step zero("", { 0, 0, 0, 0, 0 });
	S cur = F::make(zero, 0), tgt = cur;
	S* saved = nullptr;
	L clock = 0, last = 0;           // seen by the follower
	L speed = 1;
	L start = 0, allowed = 0, slack = 0;   // since the last retarget
	bool fresh = true;
	auto restart = [&] { start = F::dist(cur, tgt); allowed = slack = 0; fresh = true; };
	auto update = [&](L maxAngle, int how)
	{
		R m = (R)maxAngle;
		if (!(m >= 0)) return;
		L before = F::dist(cur, tgt), tol = F::tol(cur, tgt) + F::near(cur, tgt, before);
		L ratio = -1, l0 = F::length(cur), l1 = F::length(tgt);
		S nw = F::update(cur, tgt, m, how, &ratio);
		F::log(nw);
		ctr(UPDATES);
		if (m == 0) ctr(ZERO);
		if (m > 3.2) ctr(HUGE_);
		if (PI2 / 2 - before < 1e-4L) ctr(OPPOSITE);
		L moved = F::dist(cur, nw), after = F::dist(nw, tgt), l = F::length(nw);
		if (!(moved <= (L)m + tol)) return rep_violation("turn", "an update allowed to turn %.9g turned %.9Lg (target %.9Lg away, then %.9Lg)", (double)m, moved, before, after);
		L want = before > (L)m ? before - (L)m : 0;
		if (!(after <= want + tol)) return rep_violation("progress", "an update allowed to turn %.9g with the target %.9Lg away left it %.18Lg away instead of %.18Lg", (double)m, before, after, want);
		if (!(after >= want - tol)) return rep_violation("turn", "an update allowed to turn %.9g with the target %.9Lg away left it only %.9Lg away", (double)m, before, after);
		L ltol = (l0 + l1) * 32 * epsOf<R>() + (l0 + l1) * F::near(cur, tgt, before);
		if (!(l >= fminl(l0, l1) - ltol && l <= fmaxl(l0, l1) + ltol)) return rep_violation("length", "an update between lengths %.9Lg and %.9Lg has length %.9Lg", l0, l1, l);
		if (before <= (L)m - tol && !(fabsl(l - l1) <= ltol)) return rep_violation("length", "the follower arrived with length %.9Lg, the target's is %.9Lg", l, l1);
		if (ratio != -1 && !(ratio >= -tol && ratio <= 1 + tol)) return rep_violation("ratio", "an update allowed to turn %.9g with the target %.9Lg away reports ratio %.9Lg", (double)m, before, ratio);
		if (ratio != -1 && before > 1e-2L && !(fabsl(ratio * before - moved) <= 4 * tol)) return rep_violation("ratio", "an update turned %.9Lg of %.9Lg and reports ratio %.9Lg", moved, before, ratio);
		cur = nw;
		allowed += (L)m;
		slack += tol;
		if (fresh && allowed >= start + 2 * slack)
		{
			fresh = false;
			ctr(ARRIVED);
			if (!(after <= 2 * slack + tol)) return rep_violation("reach", "updates allowed %.9Lg in total with the target initially %.9Lg away; it is still %.9Lg away", allowed, start, after);
		}
	};
	for (auto& st : p.steps)
	{
		if (rep_violated()) break;
		for (char ch : st.k) shape((unsigned char)ch);
		if (st.k == "start") { cur = F::make(st, 0); tgt = cur; restart(); }
		else if (st.k == "target") { tgt = F::make(st, 0); ctr(RETARGET); restart(); }
		else if (st.k == "speed") speed = fabsl(fx(st.arg(0)));
		else if (st.k == "tick")
		{
			// the clock advances, stalls, jumps, or goes back; a backward step allows no turn
			clock += fx(st.arg(0));
			g_sh->simtime_us += (u64)fabsl(fx(st.arg(0)) * 1024);
			L dt = clock - last;
			last = clock;
			shape(dt == 0 ? 0 : dt < 0 ? 1 : speed * dt > 3.2L ? 3 : 2);
			if (dt < 0) { ctr(BACK); dt = 0; }
			update(speed * dt, (int)md(st.arg(1), 4));
		}
		else if (st.k == "hold")
		{
			ctr(HOLDS);
			L m = fabsl(fx(st.arg(0))) * ldexpl(1, -(int)md(st.arg(2), 12));
			int n = (int)md(st.arg(1), 4000);
			for (int i = 0; i < n && !rep_violated(); i++) update(m, (int)md(st.arg(3), 4));
		}
		else if (st.k == "ckpt") { delete saved; saved = new S(cur); }
		else if (st.k == "crash") { if (saved) { memset((void*)&cur, 0xA5, sizeof cur); new (&cur) S(*saved); ctr(CRASH); restart(); } }
		else if (st.k == "rewrite") { cur = F::same(cur, (int)md(st.arg(0), 4)); tgt = F::same(tgt, (int)md(st.arg(1), 4)); ctr(FLIP); slack += F::tol(cur, tgt); }
		else if (st.k == "reverse") { S t = cur; cur = tgt; tgt = t; ctr(RETARGET); restart(); }
	}
}
template <class R> void run(const Plan& p, int kind)
{
	ctr(KIND0 + kind);
	shape(kind);
	switch (kind)
	{
	case 0: follow<R, Scalar<R>>(p); break;
	case 1: follow<R, Plane2<R>>(p); break;
	case 2: follow<R, Space3<R>>(p); break;
	case 3: follow<R, Orient<R>>(p); break;
	case 4: follow<R, Rot2<R>>(p); break;
	case 5: follow<R, RotM<R, Mat3<R>>>(p); break;
	default: follow<R, RotM<R, Mat34<R>>>(p); break;
	}
}
}
const char* const names_C13[] = { "updates", "updates with a stalled clock or zero angle", "updates allowed more than half a turn", "clock steps backwards", "retargets", "crashes with restore from a checkpoint", "states rewritten in an equivalent form", "arrivals checked after the allowed angles added up", "held-target phases", "updates from (nearly) opposite to the target",
	"angle followers", "plane vector followers", "space vector followers", "quaternion followers", "2x2 matrix followers", "3x3 matrix followers", "3x4 matrix followers", nullptr };
void gen_C13(Plan& p, Rng& r, int tier)
{
	int kind = (int)r.range(0, NKIND - 1);
	p.add("type", { r.range(0, 1), kind });
	i64 prev[4] = { 0, 0, 0, 0 };
	auto state = [&](const char* k)
	{
		i64 a[4];
		bool quarter = r.chance(0.25);
		for (int i = 0; i < 4; i++) a[i] = r.range(-200000, 200000);
		if (kind == 3 || kind >= 5)
		{
			for (int i = 0; i < 3; i++) a[i] = quarter ? r.range(-1, 1) : r.range(-2000, 2000);
			a[3] = quarter ? (i64)(r.range(-4, 4) * 1608.495) : r.range(-7000, 7000);
		}
		if (kind == 0 || kind == 4) a[0] = quarter ? (i64)(r.range(-8, 8) * 16084.95) : r.range(-200000, 200000);
		if (kind == 1) { a[3] = quarter ? r.range(0, 3) : 7; }
		if (kind == 2) for (int i = 0; i < 3; i++) a[i] = quarter ? r.range(-1, 1) : r.range(-2000, 2000);
		// often close to, or opposite to, the previous state
		if (r.chance(0.25)) for (int i = 0; i < 3; i++) a[i] = prev[i] + r.range(-2, 2);
		else if (r.chance(0.25))
		{
			if (kind == 2) for (int i = 0; i < 3; i++) a[i] = -prev[i];
			else if (kind == 0 || kind == 4) a[0] = prev[0] + 32170 * (r.chance(0.5) ? 1 : -1) + r.range(-2, 2);
			else if (kind == 1) { a[0] = prev[0] + 32170 + r.range(-2, 2); }
			else { for (int i = 0; i < 3; i++) a[i] = prev[i]; a[3] = prev[3] + 3217 * (r.chance(0.7) ? 1 : 2) + r.range(-2, 2); }
		}
		memcpy(prev, a, sizeof a);
		p.add(k, { a[0], a[1], a[2], a[3] });
	};
	state("start");
	state("target");
	int n = (int)r.range(5, tier ? 80 : 40);
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		if (u < 0.15) state("target");
		else if (u < 0.20) p.add("speed", { r.chance(0.2) ? r.range(0, 20) : r.range(0, 8000) });
		else if (u < 0.75) p.add("tick", { r.chance(0.15) ? 0 : r.chance(0.1) ? -r.range(0, 2000) : r.chance(0.1) ? r.range(0, 200000) : r.chance(0.2) ? r.range(1, 8) : r.range(1, 600), r.range(0, 3) });
		else if (u < 0.85) p.add("hold", { r.chance(0.5) ? r.range(1, 200) : r.range(1, 4000), r.chance(0.3) ? r.range(1, 300) : r.range(1, 40), r.chance(0.2) ? r.range(0, 11) : 0, r.range(0, 3) });
		else if (u < 0.89) p.add("ckpt", {});
		else if (u < 0.93) p.add("crash", {});
		else if (u < 0.97) p.add("rewrite", { r.range(0, 3), r.range(0, 3) });
		else p.add("reverse", {});
	}
	if (r.chance(0.7)) p.add("hold", { r.range(10, 4000), 330, 0, r.range(0, 3) });
}
void exec_C13(const Plan& p)
{
	i64 t = 0, k = 0;
	if (!p.steps.empty() && p.steps[0].k == "type") { t = p.steps[0].arg(0) & 1; k = md(p.steps[0].arg(1), NKIND); }
	if (t) run<double>(p, (int)k); else run<float>(p, (int)k);
}
