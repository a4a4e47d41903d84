// C17: histories of mutations on 2x2, 3x3, 3x4 and 4x4 matrices; what a matrix reports about itself against its elements.
#include "h.h"
using namespace mathlib;
namespace {
enum { MUT, FLAGCHECKS, REPID, REPNORMAL, REPORTHO, REPTRS, EDGE, CRASH, PERSIST, FRESH, JUST, KIND0 };
const int NS = 4;

// Elements of a matrix, columns of up to four.
template <class R> struct El { int n; R c[4][4]; L big() const { L b = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b = fmaxl(b, fabsl(c[i][j])); return b; }
	bool finite() const { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!std::isfinite(c[i][j])) return false; return true; } };
template <class R> inline L dist(const El<R>& a, const El<R>& b) { L d = 0; for (int i = 0; i < a.n; i++) for (int j = 0; j < a.n; j++) { L e = fabsl((L)a.c[i][j] - b.c[i][j]); if (!(e <= d)) d = e; } return d; }
template <class R> L det3(const R (*c)[4])
{
	return (L)c[0][0] * ((L)c[1][1] * c[2][2] - (L)c[2][1] * c[1][2]) - (L)c[1][0] * ((L)c[0][1] * c[2][2] - (L)c[2][1] * c[0][2]) + (L)c[2][0] * ((L)c[0][1] * c[1][2] - (L)c[1][1] * c[0][2]);
}

template <class R> struct Ops2
{
	typedef Mat2<R> M; enum { N = 2 };
	static const char* name() { return "Mat2"; }
	static El<R> get(const M& m) { El<R> e = { 2, { { m.x.x, m.x.y }, { m.y.x, m.y.y } } }; return e; }
	static M make(const El<R>& e) { return M(Vec2<R>(e.c[0][0], e.c[0][1]), Vec2<R>(e.c[1][0], e.c[1][1])); }
	static bool trs(const M&) { return false; }
	static bool reportsTrs() { return false; }
	static typename M::Tolerance tol() { return M::DefaultTolerance; }
	static const int NMUT = 17;
	static void mutate(M& m, const M& o, int op, R a, const L3& v, int c)
	{
		Vec2<R> u((R)v.x, (R)v.y);
		switch (op)
		{
		case 0: m.rotate(a); break;
		case 1: m.rotatePre(a); break;
		case 2: PUT(m, m.rotated(a)); break;
		case 3: m.scale(u); break;
		case 4: PUT(m, m.scaled(u)); break;
		case 5: m *= o; break;
		case 6: PUT(m, m * o); break;
		case 7: PUT(m, o * m); break;
		case 8: m.transpose(); break;
		case 9: PUT(m, m.transposed()); break;
		case 10: PUT(m, m.inversed()); break;
		case 11: PUT(m, -m); break;
		case 12: if (c & 1) m *= (R)v.x; else PUT(m, m * (R)v.x); break;
		case 13: if (v.x != 0) { if (c & 1) m /= (R)v.x; else PUT(m, m / (R)v.x); } break;
		case 14: PUT(m, (c & 1) ? m.adjoint() : m.cofactors()); break;
		case 15: if (m.x.x != 0 || m.x.y != 0) m.orthonormalise(); break;
		default: m.set(a);
		}
	}
	static void define(M& m, const M& o, int op, R a)
	{
		switch (op % 6) { case 0: m.setIdentity(); break; case 1: m.set(o); break; case 2: m = o; break; case 3: m = M::from(a); break; case 4: m = M(R(1)); break; default: m = M(a); }
	}
	static const int NPROBE = 9;
	static M probe(M m, const M& o, int op, R a)
	{
		switch (op)
		{
		case 0: return m * o; case 1: return o * m; case 2: m *= o; return m; case 3: { M k = o; k *= m; return k; }
		case 4: m.rotate(a); return m; case 5: m.rotatePre(a); return m; case 6: return m.rotated(a); case 7: return m.transposed(); default: return m.inversed();
		}
	}
	static bool inverting(int op) { return op == 8; }
	static L det(const El<R>& e) { return (L)e.c[0][0] * e.c[1][1] - (L)e.c[0][1] * e.c[1][0]; }
};
template <class R> struct Ops3
{
	typedef Mat3<R> M; enum { N = 3 };
	static const char* name() { return "Mat3"; }
	static El<R> get(const M& m) { El<R> e = { 3, { { m.x.x, m.x.y, m.x.z }, { m.y.x, m.y.y, m.y.z }, { m.z.x, m.z.y, m.z.z } } }; return e; }
	static Vec3<R> v(const R* c) { return Vec3<R>(c[0], c[1], c[2]); }
	static M make(const El<R>& e) { return M(v(e.c[0]), v(e.c[1]), v(e.c[2])); }
	static bool trs(const M&) { return false; }
	static bool reportsTrs() { return false; }
	static typename M::Tolerance tol() { return M::DefaultTolerance; }
	static const int NMUT = 34;
	static void mutate(M& m, const M& o, int op, R a, const L3& w, int c)
	{
		Vec3<R> u = V3<R>(w);
		Vec3<R> ax = u.x == 0 && u.y == 0 && u.z == 0 ? Vec3<R>(0, 0, 1) : u;
		Quat<R> q; q.set(ax, a);
		Coord k = (Coord)md(c, 3);
		switch (op)
		{
		case 0: m.rotate(k, a); break;
		case 1: m.rotatePre(k, a); break;
		case 2: PUT(m, m.rotated(k, a)); break;
		case 3: PUT(m, m.rotatedPre(k, a)); break;
		case 4: m.rotate(ax, a); break;
		case 5: m.rotatePre(ax, a); break;
		case 6: PUT(m, m.rotated(ax, a)); break;
		case 7: PUT(m, m.rotatedPre(ax, a)); break;
		case 8: m.rotate(q); break;
		case 9: m.rotatePre(q); break;
		case 10: PUT(m, m.rotated(q)); break;
		case 11: PUT(m, m.rotatedPre(q)); break;
		case 12: m.rotate(o); break;
		case 13: m.rotatePre(o); break;
		case 14: PUT(m, m.rotated(o)); break;
		case 15: PUT(m, m.rotatedPre(o)); break;
		case 16: m *= o; break;
		case 17: PUT(m, m * o); break;
		case 18: PUT(m, o * m); break;
		case 19: m.scale(u); break;
		case 20: PUT(m, m.scaled(u)); break;
		case 21: m.transpose(); break;
		case 22: PUT(m, m.transposed()); break;
		case 23: m.invert(); break;
		case 24: PUT(m, m.inversed()); break;
		case 25: PUT(m, -m); break;
		case 26: if (c & 1) m *= u.x; else PUT(m, m * u.x); break;
		case 27: if (u.x != 0) { if (c & 1) m /= u.x; else PUT(m, m / u.x); } break;
		case 28: PUT(m, (c & 1) ? m.adjoint() : m.cofactors()); break;
		case 29: m.set(ax, a); break;
		case 30: m.set(k, a); break;
		case 31: m.set(q); break;
		case 32: m.set(k, ax, (Coord)md(c + 1, 3), Vec3<R>(o.x)); break;
		default: { M d; M::multiply(d, m, o); m = d; }
		}
	}
	static void define(M& m, const M& o, int op, R a)
	{
		switch (op % 6) { case 0: m.setIdentity(); break; case 1: m.set(o); break; case 2: m = o; break; case 3: m = M::from(Coord::Y, a); break; case 4: m = M(R(1)); break; default: m = M(a); }
	}
	static const int NPROBE = 17;
	static M probe(M m, const M& o, int op, R a)
	{
		Quat<R> q; q.set(Vec3<R>(R(1), R(-2), R(0.5)), a);
		switch (op)
		{
		case 0: return m * o; case 1: return o * m; case 2: m *= o; return m; case 3: { M k = o; k *= m; return k; }
		case 4: m.rotate(o); return m; case 5: m.rotatePre(o); return m; case 6: return m.rotated(o); case 7: return m.rotatedPre(o);
		case 8: { M k = o; k.rotate(m); return k; } case 9: { M k = o; k.rotatePre(m); return k; } case 10: return o.rotated(m); case 11: return o.rotatedPre(m);
		case 12: m.rotate(Coord::Z, a); return m; case 13: return m.rotatedPre(q); case 14: return m.transposed(); case 15: m.invert(); return m; default: return m.inversed();
		}
	}
	static bool inverting(int op) { return op >= 15; }
	static L det(const El<R>& e) { return det3(e.c); }
};
template <class R> struct Ops34
{
	// a 3x4 matrix, as the 4x4 elements of its linear part and translation (the fourth row is implied)
	typedef Mat34<R> M; enum { N = 4 };
	static const char* name() { return "Mat34"; }
	static El<R> get(const M& m) { El<R> e = { 4, { { m.rs.x.x, m.rs.x.y, m.rs.x.z, 0 }, { m.rs.y.x, m.rs.y.y, m.rs.y.z, 0 }, { m.rs.z.x, m.rs.z.y, m.rs.z.z, 0 }, { m.t.x, m.t.y, m.t.z, 1 } } }; return e; }
	static Vec3<R> v(const R* c) { return Vec3<R>(c[0], c[1], c[2]); }
	static M make(const El<R>& e) { return M(v(e.c[0]), v(e.c[1]), v(e.c[2]), v(e.c[3])); }
	static bool trs(const M&) { return false; }
	static bool reportsTrs() { return false; }
	static typename Mat3<R>::Tolerance tol() { return Mat3<R>::DefaultTolerance; }
	static const int NMUT = 24;
	static void mutate(M& m, const M& o, int op, R a, const L3& w, int c)
	{
		Vec3<R> u = V3<R>(w);
		Vec3<R> ax = u.x == 0 && u.y == 0 && u.z == 0 ? Vec3<R>(0, 0, 1) : u;
		Quat<R> q; q.set(ax, a);
		Coord k = (Coord)md(c, 3);
		switch (op)
		{
		case 0: m.rotate(k, a); break;
		case 1: m.rotatePre(k, a); break;
		case 2: m.rotate(ax, a); break;
		case 3: m.rotatePre(ax, a); break;
		case 4: m.rotate(q); break;
		case 5: m.rotatePre(q); break;
		case 6: m.transform(o); break;
		case 7: m.transformPre(o); break;
		case 8: m.transform(o.rs); break;
		case 9: m.transformPre(o.rs); break;
		case 10: m *= o; break;
		case 11: PUT(m, m * o); break;
		case 12: PUT(m, o * m); break;
		case 13: m *= o.rs; break;
		case 14: PUT(m, m * o.rs); break;
		case 15: m.translate(u); break;
		case 16: m.translatePre(u); break;
		case 17: m.scale(u); break;
		case 18: m.scalePre(u); break;
		case 19: m.transpose(); break;
		case 20: m.invert(); break;
		case 21: PUT(m, -m); break;
		case 22: switch (md(c, 4)) { case 0: m.set(q, u); break; case 1: m.set(k, a, u); break; case 2: m.set(ax, a, u); break; default: m.set(o.rs, u); } break;
		default: if (c & 1) m.set(o.rs.x, o.rs.y, o.rs.z); else m.set(k, ax, (Coord)md(c + 1, 3), Vec3<R>(o.rs.x)); break;
		}
	}
	static void define(M& m, const M& o, int op, R a)
	{
		switch (op % 6) { case 0: m.setIdentity(); break; case 1: m.set(o); break; case 2: m = o; break; case 3: m = M::from(Coord::Y, a); break; case 4: m = M(R(1)); break; default: m = M(o.rs); }
	}
	static const int NPROBE = 12;
	static M probe(M m, const M& o, int op, R a)
	{
		switch (op)
		{
		case 0: return m * o; case 1: return o * m; case 2: m *= o; return m; case 3: { M k = o; k *= m; return k; }
		case 4: m.transform(o); return m; case 5: m.transformPre(o); return m; case 6: { M k = o; k.transform(m); return k; } case 7: { M k = o; k.transformPre(m); return k; }
		case 8: m.rotate(Coord::X, a); return m; case 9: m.transform(o.rs); return m; case 10: return m * o.rs; default: m.invert(); return m;
		}
	}
	static bool inverting(int op) { return op == 11; }
	static L det(const El<R>& e) { return det3(e.c); }
};
template <class R> struct Ops4
{
	typedef Mat4<R> M; enum { N = 4 };
	static const char* name() { return "Mat4"; }
	static Vec4<R> v(const R* c) { return Vec4<R>(c[0], c[1], c[2], c[3]); }
	static El<R> get(const M& m) { El<R> e = { 4, { { m.x.x, m.x.y, m.x.z, m.x.w }, { m.y.x, m.y.y, m.y.z, m.y.w }, { m.z.x, m.z.y, m.z.z, m.z.w }, { m.t.x, m.t.y, m.t.z, m.t.w } } }; return e; }
	static M make(const El<R>& e) { return M(v(e.c[0]), v(e.c[1]), v(e.c[2]), v(e.c[3])); }
	static bool trs(const M& m) { return m.isTrs(); }
	static bool reportsTrs() { return true; }
	static typename M::Tolerance tol() { return M::DefaultTolerance; }
	static const int NMUT = 31;
	static void mutate(M& m, const M& o, int op, R a, const L3& w, int c)
	{
		Vec3<R> u = V3<R>(w);
		Vec3<R> ax = u.x == 0 && u.y == 0 && u.z == 0 ? Vec3<R>(0, 0, 1) : u;
		Quat<R> q; q.set(ax, a);
		Coord k = (Coord)md(c, 3);
		switch (op)
		{
		case 0: m.rotate(k, a); break;
		case 1: m.rotatePre(k, a); break;
		case 2: m.rotate(ax, a); break;
		case 3: m.rotatePre(ax, a); break;
		case 4: m.rotate(q); break;
		case 5: m.rotatePre(q); break;
		case 6: PUT(m, m.rotated(k, a)); break;
		case 7: PUT(m, m.rotatedPre(k, a)); break;
		case 8: PUT(m, m.rotated(q)); break;
		case 9: PUT(m, m.rotatedPre(ax, a)); break;
		case 10: m.transform(o); break;
		case 11: m.transformPre(o); break;
		case 12: PUT(m, m.transformed(o)); break;
		case 13: PUT(m, m.transformedPre(o)); break;
		case 14: PUT(m, m * o); break;
		case 15: PUT(m, o * m); break;
		case 16: m.translate(u); break;
		case 17: m.translatePre(u); break;
		case 18: PUT(m, (c & 1) ? m.translated(u) : m.translatedPre(u)); break;
		case 19: m.scale(u); break;
		case 20: m.scalePre(u); break;
		case 21: PUT(m, (c & 1) ? m.scaled(u) : m.scaledPre(u)); break;
		case 22: m.transpose(); break;
		case 23: PUT(m, m.transposed()); break;
		case 24: m.invert(); break;
		case 25: PUT(m, m.inversed()); break;
		case 26: PUT(m, -m); break;
		case 27: if (c & 1) m *= u.x; else PUT(m, m * u.x); break;
		case 28: if (u.x != 0) { if (c & 1) m /= u.x; else PUT(m, m / u.x); } break;
		case 29: switch (md(c, 4)) { case 0: m.set(q, u); break; case 1: m.set(k, a); break; case 2: m.set(ax, a); break; default: m.set(k, ax, (Coord)md(c + 1, 3), o.x.toVec3()); } break;
		default: m.set(o.x.toVec3(), o.y.toVec3(), o.z.toVec3(), u);
		}
	}
	static void define(M& m, const M& o, int op, R a)
	{
		switch (op % 6) { case 0: m.setIdentity(); break; case 1: m.set(o); break; case 2: m = o; break; case 3: m = M::from(Coord::Y, a); break; case 4: m = M(R(1)); break; default: m = M(o.x, o.y, o.z, o.t); }
	}
	static const int NPROBE = 14;
	static M probe(M m, const M& o, int op, R a)
	{
		switch (op)
		{
		case 0: return m * o; case 1: return o * m; case 2: m.transform(o); return m; case 3: m.transformPre(o); return m;
		case 4: { M k = o; k.transform(m); return k; } case 5: { M k = o; k.transformPre(m); return k; } case 6: return m.transformed(o); case 7: return o.transformed(m);
		case 8: return m.transformedPre(o); case 9: return o.transformedPre(m); case 10: m.rotate(Coord::X, a); return m; case 11: return m.transposed(); case 12: m.invert(); return m; default: return m.inversed();
		}
	}
	static bool inverting(int op) { return op >= 12; }
	static L det(const El<R>& e)
	{
		L d = 0;
		for (int k = 0; k < 4; k++)
		{
			R c[3][4]; int n = 0;
			for (int i = 0; i < 4; i++) if (i != k) { c[n][0] = e.c[i][1]; c[n][1] = e.c[i][2]; c[n][2] = e.c[i][3]; n++; }
			d += (k & 1 ? -1 : 1) * (L)e.c[k][0] * det3(c);
		}
		return d;
	}
};
// optimize() with a tolerance of the caller's own; only stricter ones keep the default promise
template <class T> T stricter(T t, int how)
{
	if (how & 1) return t;
	if (how & 2) t.normal /= 1000;
	if (how & 4) t.orthogonal /= 1000;
	if (how & 8) t.identity = 0;
	return t;
}
template <class M> auto reclassify(M& m, int how) -> typename M::Tolerance { auto t = stricter(M::DefaultTolerance, how); if (how & 1) m.optimize(); else m.optimize(&t); return t; }
template <class R> typename Mat3<R>::Tolerance reclassify(Mat34<R>& m, int how) { auto t = stricter(Mat3<R>::DefaultTolerance, how); if (how & 1) m.optimize(); else m.rs.optimize(&t); return t; }

template <class R, class O> struct Sim
{
	typedef typename O::M M;
	struct Slot { M m; bool on = false; };
	Slot slot[NS], ck[NS];
	L eps = epsOf<R>();
	L worst = 0;

	// the linear dimension flags talk about; just classified with a tolerance (or known to be an identity), it reports all that it is
	void check(const M& m, const char* after) { auto t = O::tol(); check(m, after, false, t); }
	template <class T> void check(const M& m, const char* after, bool just, const T& now)
	{
		El<R> e = O::get(m);
		for (int i = 0; i < e.n; i++) for (int j = 0; j < e.n; j++) evd(e.c[i][j]);
		ev(m.isIdentity() | m.isNormal() << 1 | m.isOrthogonal() << 2 | m.isOrthonormal() << 3 | O::trs(m) << 4 | m.isInitialized() << 5);
		ctr(FLAGCHECKS);
		if (!e.finite()) return;
		auto tol = O::tol();
		bool affine = true;
		if (e.n == 4) { for (int i = 0; i < 4; i++) if (e.c[i][3] != (i == 3)) affine = false; }
		int n = e.n == 4 ? (affine ? 3 : 4) : e.n, rows = n;
		L dot[4][4];
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { dot[i][j] = 0; for (int k = 0; k < rows; k++) dot[i][j] += (L)e.c[i][k] * e.c[j][k]; }
		// a classification made in the element type may round; elements do not change under it
		L big = fmaxl(1, e.big()), slack = 64 * eps * big * big;
		L normal = 0, ortho = 0, ident = 0;
		for (int i = 0; i < n; i++) normal += (dot[i][i] - 1) * (dot[i][i] - 1);
		int nc = n == 4 ? 3 : n;
		for (int i = 0; i < nc; i++) for (int j = 0; j < i; j++) ortho += dot[i][j] * dot[i][j];
		for (int i = 0; i < e.n; i++) for (int j = 0; j < e.n; j++) { L d = (L)e.c[i][j] - (i == j); ident += d * d; }
		auto over = [&](L err, L t) { return !(sqrtl(err) <= sqrtl(t) * 1.01L + slack); };
		if (m.isNormal()) { ctr(REPNORMAL); if (over(normal, tol.normal)) return bad("normal", after, m, normal, tol.normal); }
		if (m.isOrthogonal()) { ctr(REPORTHO); if (over(ortho, tol.orthogonal)) return bad("orthogonal", after, m, ortho, tol.orthogonal); }
		if (m.isOrthonormal() && (over(normal, tol.normal) || over(ortho, tol.orthogonal))) return bad("orthonormal", after, m, fmaxl(normal, ortho), tol.normal);
		if (m.isIdentity())
		{
			ctr(REPID);
			if (!(sqrtl(ident) <= sqrtl(tol.identity) * 1.01L + 4 * eps)) return bad("identity", after, m, ident, tol.identity);
		}
		if (e.n == 4 && O::trs(m)) { ctr(REPTRS); if (!affine) return bad("TRS", after, m, 1, 0); }
		if (just && big < 1e3L)
		{
			auto under = [&](L err, L t) { return sqrtl(err) + slack <= sqrtl(t) * 0.99L; };
			bool sn = under(normal, now.normal), so = under(ortho, now.orthogonal), si = sn && so && (sqrtl(ident) + 4 * eps <= sqrtl(now.identity) * 0.99L || ident == 0);
			ctr(JUST);
			if (e.n == 4 && !O::reportsTrs() && !(e.c[3][0] == 0 && e.c[3][1] == 0 && e.c[3][2] == 0)) si = false; // a 3x4 matrix that translates at all is none
			if (sn && !m.isNormal()) return fails("normal", after, m, normal, now.normal);
			if (so && !m.isOrthogonal()) return fails("orthogonal", after, m, ortho, now.orthogonal);
			if (sn && so && !m.isOrthonormal()) return fails("orthonormal", after, m, fmaxl(normal, ortho), now.normal);
			if (si && !m.isIdentity()) return fails("identity", after, m, ident, now.identity);
			if (e.n == 4 && affine && O::reportsTrs() && !O::trs(m)) return fails("TRS", after, m, 0, 0);
			// and nothing that it is not
			if (m.isNormal() && over(normal, now.normal)) return bad("normal", after, m, normal, now.normal);
			if (m.isOrthogonal() && over(ortho, now.orthogonal)) return bad("orthogonal", after, m, ortho, now.orthogonal);
			if (m.isIdentity() && !(sqrtl(ident) <= sqrtl(now.identity) * 1.01L + 4 * eps)) return bad("identity", after, m, ident, now.identity);
		}
		if (normal > tol.normal / 4 && normal < tol.normal * 4) ctr(EDGE);
		else if (ident > tol.identity / 16 && ident < tol.identity * 16) ctr(EDGE);
		if (!m.isInitialized()) rep_violation("uninitialised", "a %s of %s reports itself uninitialised after %s", O::name(), tname(), after);
	}
	static const char* tname() { return sizeof(R) == 4 ? "float" : "double"; }
	std::string show(const M& m)
	{
		El<R> e = O::get(m);
		std::string s;
		for (int i = 0; i < e.n; i++) { s += i ? " | " : ""; for (int j = 0; j < e.n; j++) { char b[40]; snprintf(b, sizeof b, "%s%.9g", j ? " " : "", (double)e.c[i][j]); s += b; } }
		return s;
	}
	void bad(const char* what, const char* after, const M& m, L err, L t)
	{
		rep_violation(what, "a %s of %s reports itself %s after %s, but its error is %.4Lg (tolerance %.4Lg): %s", O::name(), tname(), what, after, err, t, show(m).c_str());
	}
	void fails(const char* what, const char* after, const M& m, L err, L t)
	{
		rep_violation(what, "a %s of %s does not report itself %s after %s, though its error is %.4Lg (tolerance %.4Lg): %s", O::name(), tname(), what, after, err, t, show(m).c_str());
	}
	// every operation gives what it gives on a matrix freshly built from the same elements
	void fresh(const M& m, const M& o, int op, R a)
	{
		El<R> e = O::get(m), oe = O::get(o);
		if (!e.finite() || !oe.finite()) return;
		ctr(FRESH);
		M f = O::make(e);
		L be = fmaxl(1, e.big()), bo = fmaxl(1, oe.big()), tol;
		if (be > 1e9L || bo > 1e9L) return;
		if (O::inverting(op))
		{
			L d = fabsl(O::det(e));
			// bound of the cofactor formula: relative conditioning of determinant and adjoint
			L adj = be, full = be;
			for (int i = 1; i < O::N; i++) { if (i < O::N - 1) adj *= be; full *= be; }
			if (!(d > 1e-12L) || 24 * 64 * eps * full / d > 0.05L) return;
			L inv = 6 * adj / d;
			tol = 64 * eps * (inv + inv * 24 * full / d) * (1 + be);
		}
		else tol = 128 * eps * be * bo;
		El<R> x = O::get(O::probe(m, o, op, a)), y = O::get(O::probe(f, o, op, a));
		for (int i = 0; i < x.n; i++) for (int j = 0; j < x.n; j++) evd(x.c[i][j]);
		L dd = dist(x, y);
		if (dd <= tol) worst = fmaxl(worst, dd / tol);
		else rep_violation("stale", "operation %d gives a different result (by %.4Lg, allowed %.4Lg) on a %s of %s than on one freshly built from the same elements: %s; reported identity %d normal %d orthogonal %d", op, dd, tol, O::name(), tname(), show(m).c_str(), m.isIdentity(), m.isNormal(), m.isOrthogonal());
	}
	void exec(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			Slot& s = slot[md(st.arg(0), NS)];
			auto angle = [&](i64 sel, i64 v) -> R
			{
				static const L sp[] = { 0, 1.5707963267948966192L, 3.1415926535897932385L, -1.5707963267948966192L, 6.2831853071795864769L };
				if (md(sel, 3) == 0) return (R)sp[md(v, 5)];
				if (md(sel, 3) == 1) return (R)ldexpl((v & 1 ? -1 : 1) * (1 + (L)md(v >> 7, 8) / 8), -(int)md(v >> 1, sizeof(R) == 4 ? 27 : 56));
				return (R)fx(v % 8192);
			};
			auto coef = [&](i64 a) -> L
			{
				// around one (within tolerance, or just out of it), or anywhere
				static const L sp[] = { -1, 0, 2, 0.5L, -2, -0.5L, 1, -1 };
				if (md(a, 4) == 0) return 1;
				if (md(a, 4) == 1) return 1 + ldexpl((a >> 2) & 1 ? -1 : 1, -(int)md(a >> 3, sizeof(R) == 4 ? 24 : 53));
				if (md(a, 4) == 2) return sp[md(a >> 2, 8)];
				return fx(md(a >> 2, 8192) - 4096);
			};
			if (st.k == "define")
			{
				M& o = slot[md(st.arg(2), NS)].m;
				if (!slot[md(st.arg(2), NS)].on) o.setIdentity(), slot[md(st.arg(2), NS)].on = true;
				O::define(s.m, M(o), (int)md(st.arg(1), 6), angle(st.arg(3), st.arg(4)));
				s.on = true;
				shape(md(st.arg(1), 6));
				check(s.m, "a definition", md(st.arg(1), 6) == 0, O::tol());
			}
			else if (st.k == "elements")
			{
				// a rotation with its elements disturbed, some or all, by a chosen magnitude
				El<R> e; e.n = O::N;
				LM r = LM::rot(dirOf(st.arg(1), st.arg(2), st.arg(3)), angle(st.arg(4), st.arg(5)));
				const L3* col[3] = { &r.x, &r.y, &r.z };
				for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) e.c[i][j] = R(i == j);
				if (O::N == 2) { R a = angle(st.arg(4), st.arg(5)); e.c[0][0] = cosl(a); e.c[0][1] = sinl(a); e.c[1][0] = -sinl(a); e.c[1][1] = cosl(a); }
				else for (int i = 0; i < 3; i++) { e.c[i][0] = (R)col[i]->x; e.c[i][1] = (R)col[i]->y; e.c[i][2] = (R)col[i]->z; }
				L mag = ldexpl(1, -(int)md(st.arg(6), sizeof(R) == 4 ? 26 : 55));
				u64 mask = st.arg(7), sg = mix64(mask, st.arg(6));
				if (st.arg(8) & 1) mask &= mask >> 4;
				int lim = O::N;
				for (int i = 0; i < lim; i++) for (int j = 0; j < lim; j++)
				{
					bool row4 = lim == 4 && j == 3;
					if (row4 && (!(st.arg(8) & 2) || O::name()[3] == '3')) continue;
					if ((mask >> (4 * i + j)) & 1) e.c[i][j] += (R)(((sg >> (4 * i + j)) & 1 ? -1 : 1) * mag);
				}
				s.m = O::make(e);
				s.on = true;
				shape(md(st.arg(6), 64));
				check(s.m, "construction from elements");
			}
			else if (!s.on) continue;
			else if (st.k == "mut")
			{
				M o = slot[md(st.arg(2), NS)].on ? slot[md(st.arg(2), NS)].m : s.m;
				int op = (int)md(st.arg(1), O::NMUT);
				if (O::get(s.m).big() > 1e6L || O::get(o).big() > 1e6L || !O::get(s.m).finite()) { s.m.setIdentity(); continue; }
				shape(op);
				ctr(MUT); ctr(KIND0 + op);
				O::mutate(s.m, o, op, angle(st.arg(3), st.arg(4)), L3(coef(st.arg(5)), coef(st.arg(6)), coef(st.arg(7))), (int)md(st.arg(8), 16));
				char what[32]; snprintf(what, sizeof what, "mutation %d", op);
				check(s.m, what);
				if (!rep_violated() && slot[md(st.arg(9), NS)].on) fresh(s.m, slot[md(st.arg(9), NS)].m, (int)md(st.arg(10), O::NPROBE), R(0.7));
			}
			else if (st.k == "probe")
			{
				if (slot[md(st.arg(2), NS)].on) fresh(s.m, slot[md(st.arg(2), NS)].m, (int)md(st.arg(1), O::NPROBE), angle(st.arg(3), st.arg(4)));
			}
			else if (st.k == "classify") { auto t = reclassify(s.m, (int)md(st.arg(1), 16)); check(s.m, "a classification", true, t); }
			else if (st.k == "persist") { ctr(PERSIST); M m = (st.arg(1) & 1) ? s.m.template cast<double>().template cast<R>() : s.m.template cast<float>().template cast<R>(); s.m = m; check(s.m, "a cast to and from storage"); }
			else if (st.k == "save") { ck[md(st.arg(1), NS)] = s; }
			else if (st.k == "crash")
			{
				Slot& c = ck[md(st.arg(1), NS)];
				if (!c.on) continue;
				ctr(CRASH);
				if (st.arg(2) & 1) { s.m = c.m; } else { M m = O::make(O::get(c.m)); s.m = m; }
				check(s.m, "reloading a checkpoint");
			}
		}
		if (getenv("SIM_WORST")) fprintf(stderr, "worst %.4Lf\n", worst);
	}
};
}
const char* const names_C17[] = { "mutations", "classifications compared with the elements", "matrices reporting identity", "matrices reporting normal", "matrices reporting orthogonal", "matrices reporting TRS", "states near a tolerance", "reloads of a checkpoint", "casts to and from storage", "operations compared with a freshly built matrix", "classifications just made, compared with the errors",
#define M10(a) "mutation " a "0", "mutation " a "1", "mutation " a "2", "mutation " a "3", "mutation " a "4", "mutation " a "5", "mutation " a "6", "mutation " a "7", "mutation " a "8", "mutation " a "9"
	M10("0"), M10("1"), M10("2"), "mutation 30", "mutation 31", "mutation 32", "mutation 33", nullptr };
void gen_C17(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 7) });
	double pTiny = r.chance(0.4) ? 0.8 : 0.2;
	auto ang = [&](Step& s) { i64 k = r.chance(pTiny) ? 1 : r.range(0, 2); s.a.push_back(k); s.a.push_back(k == 2 ? r.range(-8000, 8000) : r.range(0, 8000)); };
	auto make = [&](i64 s)
	{
		if (r.chance(0.5)) { Step st("define", { s, r.range(0, 5), r.range(0, NS - 1) }); ang(st); p.steps.push_back(st); }
		else { Step st("elements", { s, r.range(-2000, 2000), r.range(-2000, 2000), r.range(-2000, 2000) }); ang(st); st.a.push_back(r.range(0, 60)); st.a.push_back(r.range(0, 65535)); st.a.push_back(r.range(0, 3)); p.steps.push_back(st); }
	};
	for (int i = 0; i < NS; i++) make(i);
	int n = (int)r.range(6, tier ? 90 : 40);
	auto co = [&] { i64 a = r.range(0, 100000); if (r.chance(pTiny)) a = a / 4 * 4 + r.range(0, 2); return a; };
	for (int i = 0; i < n; i++)
	{
		i64 s = r.range(0, NS - 1);
		double u = r.unit();
		if (u < 0.66) { Step st("mut", { s, r.range(0, 10000), r.range(0, NS - 1) }); ang(st); i64 c = co(); bool same = r.chance(0.3); for (int k = 0; k < 3; k++) st.a.push_back(same ? c : co()); st.a.push_back(r.range(0, 15)); st.a.push_back(r.range(0, NS - 1)); st.a.push_back(r.range(0, 1000)); p.steps.push_back(st); }
		else if (u < 0.76) { Step st("probe", { s, r.range(0, 1000), r.range(0, NS - 1) }); ang(st); p.steps.push_back(st); }
		else if (u < 0.80) p.add("classify", { s, r.range(0, 15) });
		else if (u < 0.84) p.add("persist", { s, r.range(0, 1) });
		else if (u < 0.87) p.add("save", { s, r.range(0, NS - 1) });
		else if (u < 0.91) p.add("crash", { s, r.range(0, NS - 1), r.range(0, 1) });
		else make(s);
	}
}
void exec_C17(const Plan& p)
{
	i64 t = !p.steps.empty() && p.steps[0].k == "type" ? p.steps[0].arg(0) : 0;
	shape(md(t, 8));
	switch (md(t, 8))
	{
	case 0: (*new Sim<float, Ops2<float>>).exec(p); break;
	case 1: (*new Sim<double, Ops2<double>>).exec(p); break;
	case 2: (*new Sim<float, Ops3<float>>).exec(p); break;
	case 3: (*new Sim<double, Ops3<double>>).exec(p); break;
	case 4: (*new Sim<float, Ops34<float>>).exec(p); break;
	case 5: (*new Sim<double, Ops34<double>>).exec(p); break;
	case 6: (*new Sim<float, Ops4<float>>).exec(p); break;
	default: (*new Sim<double, Ops4<double>>).exec(p); break;
	}
}
