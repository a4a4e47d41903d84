// C29: orientations animated between key frames on a faulty clock: slerp, lerp and squad of quaternions, matrices and vectors, aiming, logarithms, cameras that chase and crash.
#include "h.h"
#include <vector>
using namespace mathlib;
namespace {
enum { KEYS, FROMMATRIX, FROMRAW, AIMED, OPPOSED, LOOKED, NEAR, FAR, TWIN, PLAYS, LONGWAY, LERPS, MATRICES, MATRICES34, VECTORS, VECOPPOSED, ENDS, ALIASED, CHASES, SQUADS, CONTROLS, LOGS, PRODUCTS, BEYOND, AXES, SAVES, CRASHES, BACKWARDS };
struct LQ
{
	L x, y, z, w;
	LQ(L a = 0, L b = 0, L c = 0, L d = 1) : x(a), y(b), z(c), w(d) {}
	template <class R> static LQ of(const Quat<R>& q) { return LQ(q.x, q.y, q.z, q.w); }
	LQ operator+(const LQ& o) const { return LQ(x + o.x, y + o.y, z + o.z, w + o.w); }
	LQ operator-(const LQ& o) const { return LQ(x - o.x, y - o.y, z - o.z, w - o.w); }
	LQ operator*(L k) const { return LQ(x * k, y * k, z * k, w * k); }
	LQ operator*(const LQ& q) const { return LQ(w * q.x + x * q.w + y * q.z - z * q.y, w * q.y + y * q.w + z * q.x - x * q.z, w * q.z + z * q.w + x * q.y - y * q.x, w * q.w - x * q.x - y * q.y - z * q.z); }
	LQ conj() const { return LQ(-x, -y, -z, w); }
	L dot(const LQ& o) const { return x * o.x + y * o.y + z * o.z + w * o.w; }
	L len() const { return sqrtl(dot(*this)); }
	LQ unit() const { L l = len(); return l > 0 ? *this * (1 / l) : LQ(); }
	bool finite() const { return std::isfinite(x) && std::isfinite(y) && std::isfinite(z) && std::isfinite(w); }
	L3 turn(const L3& v) const { L3 u(x, y, z); L3 t = u.cross(v) * 2; return v + t * w + u.cross(t); }
	static LQ rot(const L3& axis, L angle) { L3 a = axis.unit() * sinl(angle / 2); return LQ(a.x, a.y, a.z, cosl(angle / 2)); }
	static LQ of(const LM& m)
	{
		L t[4] = { 1 + m.x.x + m.y.y + m.z.z, 1 + m.x.x - m.y.y - m.z.z, 1 - m.x.x + m.y.y - m.z.z, 1 - m.x.x - m.y.y + m.z.z };
		int k = 0;
		for (int i = 1; i < 4; i++) if (t[i] > t[k]) k = i;
		switch (k)
		{
		case 0: return LQ(m.y.z - m.z.y, m.z.x - m.x.z, m.x.y - m.y.x, t[0]).unit();
		case 1: return LQ(t[1], m.y.x + m.x.y, m.z.x + m.x.z, m.y.z - m.z.y).unit();
		case 2: return LQ(m.y.x + m.x.y, t[2], m.z.y + m.y.z, m.z.x - m.x.z).unit();
		default: return LQ(m.z.x + m.x.z, m.z.y + m.y.z, t[3], m.x.y - m.y.x).unit();
		}
	}
	// distance as orientations: q and -q are the same
	L dist(const LQ& o) const { return fminl((*this - o).len(), (*this + o).len()); }
};
L arcAngle(const LQ& a, const LQ& b) { return 2 * atan2l((a - b).len(), (a + b).len()); }
LQ slerpOf(const LQ& a, const LQ& b, L w)
{
	L t = arcAngle(a, b), s = sinl(t);
	if (s < 1e-9L) return (a + (b - a) * w).unit();
	return a * (sinl(t * (1 - w)) / s) + b * (sinl(t * w) / s);
}
template <class R> struct World
{
	typedef Quat<R> Q; typedef Mat3<R> M; typedef Mat34<R> M34; typedef Mat4<R> M4; typedef Vec3<R> V;
	enum { NK = 6 };
	struct Key { Q q; M m; M34 m34; LQ ref; };
	Key key[NK];
	Q cam, camSaved; int steps = 0, stepsSaved = 0;
	L eps = epsOf<R>(), last = 0;
	World() { for (int i = 0; i < NK; i++) make(i, Q::from(V(R(1), R(i), R(2)), R(i))); cam.setIdentity(); camSaved = cam; }
	void make(int i, const Q& q) { Key& k = key[i]; k.q = q; k.m.set(q); k.m34.set(q); k.ref = LQ::of(q).unit(); }
	bool unitary(const char* what, const Q& q, L tol)
	{
		LQ l = LQ::of(q);
		evd(l.x); evd(l.y); evd(l.z); evd(l.w);
		if (!l.finite() || !(fabsl(l.len() - 1) <= tol)) { rep_violation("unit", "%s is (%.9Lg, %.9Lg, %.9Lg, %.9Lg), not of length one", what, l.x, l.y, l.z, l.w); return false; }
		return true;
	}
	// r lies on the arc from a to b at an angle between lo and hi times the whole (either reckoned along the arc or along its chord)
	bool onArc(const char* what, const LQ& r0, const LQ& a, LQ b, L w, bool chordOnly, bool arcOnly, L tol, bool anySign)
	{
		L t = arcAngle(a, b), c = cosl(t);
		LQ r = r0;
		if (anySign && r.dot(a + b) < 0) r = r * -1;
		LQ e = b - a * a.dot(b);
		L el = e.len();
		e = el > 1e-17L ? e * (1 / el) : LQ(0, 0, 0, 0);
		for (int k = 0; k < 2; k++) { e = e - a * a.dot(e); if (e.len() > 0.1L) e = e * (1 / e.len()); }
		L phi = atan2l(r.dot(e), r.dot(a));
		L arc = w * t, chord = atan2l(w * sinl(t), 1 - w + w * c);
		L lo = chordOnly ? chord : arcOnly ? arc : fminl(arc, chord), hi = chordOnly ? chord : arcOnly ? arc : fmaxl(arc, chord);
		L off = (r - a * cosl(phi) - e * sinl(phi)).len();
		evd(phi);
		if (!(phi >= lo - tol && phi <= hi + tol) || !(off <= tol)) { rep_violation("arc", "%s at %.9Lg of an arc of %.9Lg has gone %.12Lg of it, not %.12Lg, and is %.3Lg off it (tolerance %.3Lg)", what, w, t, phi, arc, off, tol); return false; }
		return true;
	}
	// slerp of two orientations by the shorter arc, in whichever branch the library chooses
	bool shorter(const char* what, const LQ& r, const LQ& a, LQ b, L w, L tol)
	{
		L d = a.dot(b);
		if (fabsl(d) < 256 * eps) // half a turn apart: either way round is as short
		{
			LQ p = slerpOf(a, b, w), q = slerpOf(a, b * -1, w);
			if (!(fminl(r.dist(p), r.dist(q)) <= tol + 512 * eps)) { rep_violation("arc", "%s at %.9Lg of half a turn is off both ways round", what, w); return false; }
			return true;
		}
		if (d < 0) b = b * -1;
		return onArc(what, r, a, b, w, false, fabsl(d) < 0.95L - 64 * eps, tol, true);
	}
	L ratio(i64 kind, i64 v)
	{
		R w;
		switch (md(kind, 10))
		{
		case 0: w = R(0); break;
		case 1: w = R(1); break;
		case 2: w = R(0.5); break;
		case 3: w = epsOf<R>(); break;
		case 4: w = R(1) - (R)epsOf<R>(); break;
		case 5: w = (R)(md(v, 1000) / 1e6L); break;
		default: w = (R)(md(v, 4097) / (L)4096); break;
		}
		if (w < last) ctr(BACKWARDS);
		return last = w;
	}
	bool play(i64 i, i64 j, L w0, i64 how)
	{
		const Key &a = key[md(i, NK)], &b = key[md(j, NK)];
		R w = (R)w0;
		L d = a.ref.dot(b.ref), t = arcAngle(a.ref, b.ref);
		if (w0 == 0 || w0 == 1) ctr(ENDS);
		L tol = 48 * eps;
		int k = (int)md(how, 8), st = (int)((how >> 3) & 3);
		if (k <= 1)
		{
			ctr(PLAYS);
			Q r;
			if (st == 0) r.slerp(a.q, b.q, w);
			else if (st == 1) r = Q::fromSlerp(a.q, b.q, w);
			else if (st == 2) { ctr(ALIASED); r = a.q; r.slerp(r, b.q, w); }
			else { ctr(ALIASED); r = b.q; r.slerp(a.q, r, w); }
			return unitary("an interpolated orientation", r, tol) && shorter("an interpolated orientation", LQ::of(r), a.ref, b.ref, w, tol);
		}
		if (k == 2)
		{
			if (d < -0.999L) return true;
			ctr(LONGWAY);
			Q r;
			if (st & 1) r.slerpNoInvert(a.q, b.q, w); else r = Q::fromSlerpNoInvert(a.q, b.q, w);
			L s = sinl(t), tl = d < 0.96L ? tol * (1 + 1 / (s * s)) : tol;
			return unitary("an uninverted interpolated orientation", r, tl) && onArc("an uninverted interpolated orientation", LQ::of(r), a.ref, b.ref, w, false, d < 0.95L - 64 * eps, tl, false);
		}
		if (k == 3)
		{
			if (d < -0.9L) return true;
			ctr(LERPS);
			Q r;
			if (st == 0) r.lerp(a.q, b.q, w); else if (st == 1) r = Q::fromLerp(a.q, b.q, w); else { ctr(ALIASED); r = a.q; r.lerp(r, b.q, w); }
			return unitary("a linearly interpolated orientation", r, tol) && onArc("a linearly interpolated orientation", LQ::of(r), a.ref, b.ref, w, true, false, tol * 8, false);
		}
		if (k == 4)
		{
			ctr(MATRICES);
			M r;
			if (st == 0) r.slerp(a.m, b.m, w); else if (st == 1) r = M::fromSlerp(a.m, b.m, w); else { ctr(ALIASED); r = a.m; r.slerp(r, b.m, w); }
			return rotation("an interpolated 3x3 matrix", LM::of(r)) && shorter("an interpolated 3x3 matrix", LQ::of(LM::of(r)), a.ref, b.ref, w, 4 * tol);
		}
		if (k == 5)
		{
			ctr(MATRICES34);
			M34 r;
			if (st == 0) r.slerp(a.m34, b.m34, w); else if (st == 1) r = M34::fromSlerp(a.m34, b.m34, w); else { ctr(ALIASED); r = a.m34; r.slerp(r, b.m34, w); }
			if (!r.t.isNull()) { rep_violation("place", "an interpolated orientation of a 3x4 matrix has moved it"); return false; }
			return rotation("an interpolated 3x4 matrix", LM::of(r.rs)) && shorter("an interpolated 3x4 matrix", LQ::of(LM::of(r.rs)), a.ref, b.ref, w, 4 * tol);
		}
		// directions, of any length
		static const R LEN[] = { R(1), R(2), R(0.001), R(300), R(1), R(1), R(0), R(5) };
		V u = a.q.rotated(V(R(0), R(0), LEN[(how >> 5) & 7])), v = b.q.rotated(V(R(0), R(0), LEN[(how >> 8) & 7]));
		if (((how >> 11) & 15) == 0) v = -u; else if (((how >> 11) & 15) == 1) { v = -u; v.x += u.y * R(0.00005) * R(md(how >> 15, 9)); }
		return slerpVec(u, v, w, st);
	}
	bool slerpVec(const V& u, const V& v, R w, int st)
	{
		ctr(VECTORS);
		V r;
		if (st == 0) r.slerp(u, v, w); else if (st == 1) r = V::fromSlerp(u, v, w); else if (st == 2) { ctr(ALIASED); r = u; r.slerp(r, v, w); } else { ctr(ALIASED); r = v; r.slerp(u, r, w); }
		L3 a = L3::of(u), b = L3::of(v), x = L3::of(r);
		ev3(x);
		L la = a.len(), lb = b.len(), m = fmaxl(la, lb), want = la + (lb - la) * w;
		if (!x.finite()) { rep_violation("direction", "an interpolated direction is not finite"); return false; }
		if (w == 0 || w == 1) { ctr(ENDS); if (w == 0 ? r != u : r != v) { rep_violation("direction", "a direction interpolated at %g is not its end", (double)w); return false; } return true; }
		if (la == 0 || lb == 0)
		{
			if (!((x - (a + (b - a) * w)).maxabs() <= 8 * eps * m)) { rep_violation("direction", "a direction interpolated from or to nothing is not the part of it"); return false; }
			return true;
		}
		L3 ua = a * (1 / la), ub = b * (1 / lb);
		L t = 2 * atan2l((ua - ub).len(), (ua + ub).len()), s = sinl(t);
		bool small = cosl(t) > 0 && s < 0.0501L, opposed = cosl(t) < 0 && s < 0.00011L;
		L lt = small ? 0.0004L * m : 32 * eps * m;
		if (!(fabsl(x.len() - want) <= lt)) { rep_violation("direction", "a direction interpolated at %g has length %.9Lg, not %.9Lg", (double)w, x.len(), want); return false; }
		L3 ux = x.unit(), e = (ub - ua * ua.dot(ub)).unit();
		e = (e - ua * ua.dot(e)).unit();
		L phi = 2 * atan2l((ux - ua).len(), (ux + ua).len());
		if (opposed)
		{
			ctr(VECOPPOSED);
			if (!(fabsl(phi - t * w) <= 0.0005L + 64 * eps)) { rep_violation("direction", "a direction interpolated at %g to the opposite one has turned by %.9Lg, not %.9Lg", (double)w, phi, t * w); return false; }
			return true;
		}
		L tol = 64 * eps * (1 + 1 / fmaxl(s, 0.0001L) + m / x.len()), off = (ux - ua * cosl(phi) - e * sinl(phi)).len();
		bool at = small ? phi <= t + tol : fabsl(phi - t * w) <= tol;
		if (!at || !(off <= tol)) { rep_violation("direction", "a direction interpolated at %g over %.9Lg has turned by %.12Lg and is %.3Lg off the arc (tolerance %.3Lg)", (double)w, t, phi, off, tol); return false; }
		return true;
	}
	bool rotation(const char* what, const LM& m)
	{
		LM p = m.transposed() * m;
		if (!m.finite() || !(p.dist(LM()) <= 128 * eps) || !(m.det() > 0)) { rep_violation("rotation", "%s is not a rotation", what); return false; }
		return true;
	}
	bool aim(i64 i, const L3& f, const L3& g, int how)
	{
		V from = V3<R>(f), to = V3<R>(g);
		L3 a = L3::of(from).unit(), b = L3::of(to).unit();
		L t = 2 * atan2l((a - b).len(), (a + b).len()), s = sinl(t);
		ctr(AIMED);
		if (t > 3.13L) ctr(OPPOSED);
		Q q;
		if (how & 1) q.set(from, to); else q = Q::from(from, to);
		if (!unitary("the turn from one direction to another", q, 32 * eps)) return false;
		L tol = t < 0.0046L || t > 3.1369L ? 0.0047L : 32 * eps * (1 + 1 / s);
		L off = (LQ::of(q).unit().turn(a) - b).len();
		if (!(off <= tol)) { rep_violation("aim", "the turn from one direction to another, %.9Lg away, misses it by %.9Lg (tolerance %.3Lg)", t, off, tol); return false; }
		L ang = 2 * atan2l(sqrtl((L)q.x * q.x + (L)q.y * q.y + (L)q.z * q.z), fabsl((L)q.w));
		if (!(ang <= t + tol)) { rep_violation("aim", "the turn from one direction to another, %.9Lg away, is one of %.9Lg", t, ang); return false; }
		make((int)md(i, NK), q);
		return true;
	}
	bool look(i64 i, const L3& f, const L3& g, i64 how)
	{
		V exact = V3<R>(f), approx = V3<R>(g);
		int e = (int)md(how, 3), a = (int)md(e + 1 + ((how >> 2) & 1), 3);
		static const Coord C[] = { Coord::X, Coord::Y, Coord::Z };
		L3 le = L3::of(exact), la = L3::of(approx);
		L s = le.unit().cross(la.unit()).len();
		LM m;
		ctr(LOOKED);
		switch (md(how >> 3, 5))
		{
		case 0: { M x; x.set(C[e], exact, C[a], approx); m = LM::of(x); break; }
		case 1: m = LM::of(M::from(C[e], exact, C[a], approx)); break;
		case 2: { M34 x = M34::from(C[e], exact, C[a], approx); m = LM::of(x.rs); if (!x.t.isNull()) s = -1; break; }
		case 3: { M4 x = M4::from(C[e], exact, C[a], approx); m = LM(L3::of(x.x.toVec3()), L3::of(x.y.toVec3()), L3::of(x.z.toVec3())); if (x.t.x != 0 || x.t.y != 0 || x.t.z != 0 || x.t.w != 1 || x.x.w != 0 || x.y.w != 0 || x.z.w != 0) s = -1; break; }
		default: { M4 x; x.set(C[e], exact, C[a], approx); m = LM(L3::of(x.x.toVec3()), L3::of(x.y.toVec3()), L3::of(x.z.toVec3())); break; }
		}
		ev3(m.x); ev3(m.y); ev3(m.z);
		if (s < 0) { rep_violation("look", "an orientation from two directions has moved or sheared the matrix"); return false; }
		if (s < 1e-3L) return true;
		const L3* col[] = { &m.x, &m.y, &m.z };
		L tol = 32 * eps / s;
		LM p = m.transposed() * m;
		if (!(p.dist(LM()) <= tol) || !(m.det() > 0)) { rep_violation("look", "an orientation from two directions is not a rotation"); return false; }
		L3 ue = le.unit();
		if (!((*col[e] - ue).len() <= tol)) { rep_violation("look", "the exact axis of an orientation from two directions is off by %.3Lg", (*col[e] - ue).len()); return false; }
		L3 ua = (la.unit() - ue * ue.dot(la.unit())).unit();
		if (!((*col[a] - ua).len() <= tol)) { rep_violation("look", "the approximate axis of an orientation from two directions is off by %.3Lg", (*col[a] - ua).len()); return false; }
		M x = M::from(C[e], exact, C[a], approx);
		make((int)md(i, NK), Q::from(x));
		return true;
	}
	static LQ logOf(const LQ& q) { L l = sqrtl(q.x * q.x + q.y * q.y + q.z * q.z), a = atan2l(l, q.w); return l > 0 ? LQ(q.x * a / l, q.y * a / l, q.z * a / l, 0) : LQ(0, 0, 0, 0); }
	static LQ expOf(const LQ& q) { L a = sqrtl(q.x * q.x + q.y * q.y + q.z * q.z), s = a > 0 ? sinl(a) / a : 1; return LQ(q.x * s, q.y * s, q.z * s, cosl(a)); }
	bool logs(i64 i, i64 how)
	{
		ctr(LOGS);
		Q q = key[md(i, NK)].q;
		if ((how & 6) == 2) { ctr(PRODUCTS); PUT(q, q * key[md(how >> 3, NK)].q.inverse()); } // not normalised: w can be a little more than one
		else if ((how & 6) == 4) { ctr(PRODUCTS); PUT(q, q / q); }
		else if ((how & 6) == 6) { ctr(PRODUCTS); q = cam; }
		if (how & 1) PUT(q, -q);
		if (q.w > 1 || q.w < -1) ctr(BEYOND);
		Q l = Q::log(q), e = Q::exp(l);
		LQ x = LQ::of(q).unit();
		L s = sqrtl(x.x * x.x + x.y * x.y + x.z * x.z);
		if (!unitary("the exponential of a logarithm", e, 32 * eps)) return false;
		if (!(LQ::of(e).dist(x) <= 48 * eps)) { rep_violation("log", "the exponential of the logarithm of (%.9Lg, %.9Lg, %.9Lg, %.9Lg) is off by %.3Lg", x.x, x.y, x.z, x.w, LQ::of(e).dist(x)); return false; }
		if (s > 0.001L || x.w > 0)
		{
			L off = (LQ::of(l) - logOf(x)).len();
			if (!(off <= 32 * eps * (1 + (x.w < 0 ? 1 / s : 0)))) { rep_violation("log", "the logarithm of (%.9Lg, %.9Lg, %.9Lg, %.9Lg) is off by %.3Lg", x.x, x.y, x.z, x.w, off); return false; }
		}
		// axis and angle
		ctr(AXES);
		V axis; R angle;
		q.toAxisAngle(axis, angle);
		L al = L3::of(axis).len();
		evd(angle);
		if (!(fabsl(al - 1) <= 8 * eps)) { rep_violation("axis", "the axis of an orientation has length %.9Lg", al); return false; }
		if (!(angle >= 0 && angle <= R(6.2832))) { rep_violation("axis", "the angle of an orientation is %.9Lg", (L)angle); return false; }
		L tol = s < 0.00101L ? 0.00205L : 16 * eps * (1 + 1 / s), off = LQ::rot(L3::of(axis), angle).dist(x);
		if (!(off <= tol)) { rep_violation("axis", "the orientation rebuilt from its axis and angle %.9Lg is off by %.3Lg (tolerance %.3Lg)", (L)angle, off, tol); return false; }
		return true;
	}
	bool squad(i64 i, i64 j, i64 k, i64 l, L w, int how)
	{
		const Key &a = key[md(i, NK)], &b = key[md(j, NK)], &c = key[md(k, NK)], &d = key[md(l, NK)];
		LQ p = slerpOf(a.ref, b.ref, w), q = slerpOf(c.ref, d.ref, w);
		L h = 2 * w * (1 - w);
		LQ want = slerpOf(p, q, h);
		L d1 = a.ref.dot(b.ref), d2 = c.ref.dot(d.ref), d3 = p.dot(q);
		if (d1 < -0.9L || d2 < -0.9L || d3 < -0.9L) return true;
		ctr(SQUADS);
		Q r;
		if (how & 1) r.set(a.q, b.q, c.q, d.q, (R)w); else if (how & 2) r = Q::from(a.q, b.q, c.q, d.q, (R)w); else { ctr(ALIASED); r = c.q; r.set(a.q, b.q, r, d.q, (R)w); }
		if (!unitary("a spline of orientations", r, 1000 * eps)) return false;
		bool chord = d1 > 0.949L || d2 > 0.949L || d3 > 0.949L;
		L tol = 2000 * eps + (chord ? 0.006L : 0), off = (LQ::of(r) - want).len();
		if (w == 0 || w == 1) { ctr(ENDS); tol = 200 * eps; }
		if (!(off <= tol)) { rep_violation("squad", "a spline of orientations at %.9Lg is off by %.3Lg (tolerance %.3Lg)", w, off, tol); return false; }
		return true;
	}
	bool control(i64 i, i64 j, i64 k, int how)
	{
		const Key &a = key[md(i, NK)], &v = key[md(j, NK)], &b = key[md(k, NK)];
		LQ x = v.ref.conj() * a.ref, y = v.ref.conj() * b.ref;
		if (x.w < -0.9L || y.w < -0.9L) return true;
		ctr(CONTROLS);
		LQ want = v.ref * expOf((logOf(x) + logOf(y)) * -0.25L);
		Q r;
		if (how & 1) r.set(a.q, v.q, b.q); else if (how & 2) r = Q::from(a.q, v.q, b.q); else { ctr(ALIASED); r = v.q; r.set(a.q, r, b.q); }
		if (!unitary("a control orientation", r, 64 * eps)) return false;
		L off = (LQ::of(r) - want).len();
		if (!(off <= 64 * eps)) { rep_violation("squad", "a control orientation is off by %.3Lg", off); return false; }
		return true;
	}
	bool chase(i64 i, L w)
	{
		ctr(CHASES);
		const Key& k = key[md(i, NK)];
		LQ was = LQ::of(cam);
		steps++;
		L tol = (48 + 8 * steps) * eps;
		L before = was.unit().dist(k.ref);
		cam.slerp(cam, k.q, (R)w);
		if (!unitary("a camera that chases", cam, tol) || !shorter("a camera that chases", LQ::of(cam), was.unit(), k.ref, w, tol)) return false;
		if (!(LQ::of(cam).unit().dist(k.ref) <= before + tol)) { rep_violation("chase", "a camera has turned away from what it chases"); return false; }
		return true;
	}
	void run(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			g_sh->simtime_us += 16000;
			if (st.k == "type") continue;
			if (st.k == "key")
			{
				int i = (int)md(st.arg(0), NK); i64 how = st.arg(5);
				L3 ax = dirOf(st.arg(1), st.arg(2), st.arg(3)); R ang = (R)fx(st.arg(4));
				const Key& o = key[md(how >> 4, NK)];
				shape((unsigned char)md(how, 8));
				ctr(KEYS);
				Q q;
				switch (md(how, 8))
				{
				case 0: q.set(V3<R>(ax), ang); break;
				case 1: { ctr(FROMMATRIX); M m; m.set(V3<R>(ax), ang); q.set(m); break; }
				case 2: { ctr(FROMMATRIX); M4 m; m.set(V3<R>(ax), ang); q.set(m); break; }
				case 3: ctr(FROMRAW); q = Q((R)ax.x, (R)ax.y, (R)ax.z, ang); break;
				case 4: ctr(TWIN); q = -o.q; break;
				case 5: ctr(NEAR); q = o.q * Q::from(V3<R>(ax), ang * R(md(st.arg(1), 3) ? 1e-5 : 0.05)); break;
				case 6: ctr(FAR); q = o.q * Q::from(V3<R>(ax), R(3.14159265358979) * (md(st.arg(1), 2) ? 1 : 2) + ang * R(1e-4)); break;
				default: q = Q::from(V3<R>(ax), ang * R(0.01)); break;
				}
				q.normalize();
				if (!unitary("a key", q, 16 * eps)) return;
				make(i, q);
			}
			else if (st.k == "aim")
			{
				i64 how = st.arg(7);
				L3 f = dirOf(st.arg(1), st.arg(2), st.arg(3)), g = dirOf(st.arg(4), st.arg(5), st.arg(6));
				if ((how & 6) == 2) g = f * -3; else if ((how & 6) == 4) g = f * -1 + g * ((how >> 3 & 7) * 0.0005L); else if ((how & 31) == 6) g = f + g * 0.002L;
				if (!aim(st.arg(0), f, g, (int)how)) return;
			}
			else if (st.k == "look") { if (!look(st.arg(0), dirOf(st.arg(1), st.arg(2), st.arg(3)), dirOf(st.arg(4), st.arg(5), st.arg(6)) * ((st.arg(7) & 64) ? 0.01L : 1), st.arg(7))) return; }
			else if (st.k == "play") { shape((unsigned char)md(st.arg(4), 8)); if (!play(st.arg(0), st.arg(1), ratio(st.arg(2), st.arg(3)), st.arg(4))) return; }
			else if (st.k == "chase") { if (!chase(st.arg(0), ratio(st.arg(1), st.arg(2)))) return; }
			else if (st.k == "squad") { if (!squad(st.arg(0), st.arg(1), st.arg(2), st.arg(3), ratio(st.arg(4), st.arg(5)), (int)st.arg(6))) return; }
			else if (st.k == "control") { if (!control(st.arg(0), st.arg(1), st.arg(2), (int)st.arg(3))) return; }
			else if (st.k == "log") { if (!logs(st.arg(0), st.arg(1))) return; }
			else if (st.k == "save") { ctr(SAVES); camSaved = cam; stepsSaved = steps; }
			else if (st.k == "crash") { ctr(CRASHES); memset((void*)&cam, 0xff, sizeof cam); cam = Q(camSaved.x, camSaved.y, camSaved.z, camSaved.w, false); steps = stepsSaved; }
		}
	}
};
}
const char* const names_C29[] = { "key frames", "key frames from matrices", "key frames from raw elements", "turns from one direction to another", "turns to the opposite direction", "orientations from two directions", "key frames beside another", "key frames half or a whole turn away", "key frames that are another's twin", "slerps", "uninverted slerps", "lerps", "3x3 slerps", "3x4 slerps", "direction slerps", "direction slerps to the opposite", "evaluations at the very ends", "results written over an operand", "chasing steps", "spline evaluations", "spline control orientations", "logarithms", "logarithms and axes of products", "logarithms and axes with w beyond one", "axes and angles", "saves", "crashes", "clock steps backwards", nullptr };
void gen_C29(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	int n = (int)r.range(15, tier ? 150 : 60);
	auto c = [&] { return r.chance(0.1) ? 0 : r.chance(0.1) ? 1024 : r.range(-2047, 2047); };
	auto rk = [&] { return r.range(0, 9); };
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		if (u < 0.22) p.add("key", { r.range(0, 5), c(), c(), c(), r.chance(0.2) ? r.range(-20, 20) : r.range(-6500, 6500), r.range(0, 127) });
		else if (u < 0.30) p.add("aim", { r.range(0, 5), c(), c(), c(), c(), c(), c(), r.range(0, 255) });
		else if (u < 0.36) p.add("look", { r.range(0, 5), c(), c(), c(), c(), c(), c(), r.range(0, 127) });
		else if (u < 0.66) p.add("play", { r.range(0, 5), r.range(0, 5), rk(), r.range(0, 1 << 20), r.range(0, (1 << 20) - 1) });
		else if (u < 0.76) p.add("chase", { r.range(0, 5), rk(), r.range(0, 1 << 20) });
		else if (u < 0.83) p.add("squad", { r.range(0, 5), r.range(0, 5), r.range(0, 5), r.range(0, 5), rk(), r.range(0, 1 << 20), r.range(0, 3) });
		else if (u < 0.88) p.add("control", { r.range(0, 5), r.range(0, 5), r.range(0, 5), r.range(0, 3) });
		else if (u < 0.96) p.add("log", { r.range(0, 5), r.range(0, 63) });
		else if (u < 0.98) p.add("save", {});
		else p.add("crash", {});
	}
}
void exec_C29(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<double>)->run(p); else (new World<float>)->run(p);
}
