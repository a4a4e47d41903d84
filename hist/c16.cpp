// C16: histories of transforms on 3x4 and 4x4 matrices, compared with the documented step applied to points.
#include "h.h"
using namespace mathlib;
namespace {
enum { STEPS, TRANSLATE, ROTATE, SCALE, TRANSFORM, PRES, COPIES, UNDONE, INVERTED, CHECKPOINTS, ROLLBACKS, MAPPED, RETURNED, KNOWNS, FRAMES, LONG };
const int NS = 4;
const int NP = 5;
const L ST = 64;   // rounding units allowed per elementary step

struct Aff { LM m; L3 t; L3 operator*(const L3& p) const { return m * p + t; } };
inline Aff mul(const Aff& a, const Aff& b) { return { a.m * b.m, a.m * b.t + a.t }; }
// largest column sum: bounds |M p|max by norm * |p|max for 3 columns
inline L nrm(const LM& m) { return fmaxl(m.norm(), 1e-300L); }

// Arrays of points with seeded strides and offsets: packed or with gaps, either side on its own. Now and then the points
// are repeated to make a long array. Nothing else may be written.
const int MANY = 80;
template <class V, class R, class F> void array(const V* in, V* out, int n, size_t ss, size_t ds, size_t so, size_t dd, F f)
{
	const int c = sizeof(V) / sizeof(R);
	u64 h = ss * 64 + ds; for (int i = 0; i < n; i++) { u64 b[4] = { 0, 0, 0, 0 }; memcpy(b, &in[i], sizeof(V)); h = mix64(h, b[0] ^ b[1] * 3 ^ b[2] * 5 ^ b[3] * 7); }
	int N = h % 12 ? n : (int)(h / 12 % MANY);
	R s[MANY * (4 + 5) + 2], d[MANY * (4 + 5) + 2];
	size_t ls = std::max(N, n) * ss + so, ld = std::max(N, n) * ds + dd + 1;
	for (size_t i = 0; i < ls; i++) s[i] = R(1e9);
	for (size_t i = 0; i < ld; i++) d[i] = R(-77);
	if (N != n) ctr(LONG);
	for (int i = 0; i < N; i++) memcpy(s + so + i * ss, &in[i % n], sizeof(V));
	f((V*)(d + dd), (const V*)(s + so), (size_t)N, ds * sizeof(R), ss * sizeof(R));
	L big = 0;
	for (int i = 0; i < std::min(n, N); i++)
		for (int k = 0; k < c; k++) { R a, b; memcpy(&a, (const char*)&in[i] + k * sizeof(R), sizeof a); b = d[dd + i * ds + k]; if (std::isfinite(a) && std::isfinite(b)) big = fmaxl(big, fmaxl(fabsl(a), fabsl(b))); else big = INFINITY; }
	for (int i = n; i < N; i++)
		for (int k = 0; k < c; k++)
		{
			R a = d[dd + i % n * ds + k], b = d[dd + i * ds + k];
			if (a != b && !(fabsl((L)a - b) <= big / 100)) return rep_violation("array", "one of %d points is mapped to (.. %.9g ..) in one place of the array and to (.. %.9g ..) in another", N, (double)a, (double)b);
		}
	if (N < n) for (int i = N; i < n; i++) { V v; f(&v, &in[i], (size_t)1, sizeof(V), sizeof(V)); memcpy((void*)&out[i], (void*)&v, sizeof v); }
	for (int i = 0; i < N; i++) { if (i < n) memcpy((void*)&out[i], d + dd + i * ds, sizeof(V)); for (int k = 0; k < c; k++) d[dd + i * ds + k] = R(-77); }
	for (size_t i = 0; i < ld; i++) if (d[i] != R(-77)) return rep_violation("stride", "an array mapping of %d points wrote outside its points (strides of %zu and %zu bytes)", N, ds * sizeof(R), ss * sizeof(R));
}
template <class V, class R, class F> void strided(const V* in, V* out, int n, unsigned how, F f)
{
	const int c = sizeof(V) / sizeof(R);
	static const int gap[] = { 0, 1, 2, 5 };
	array<V, R>(in, out, n, c + gap[how & 3], c + gap[how >> 2 & 3], how >> 4 & 1, how >> 5 & 1, f);
}
template <class R, class V, class F> void packed(const V* in, V* out, int n, F f)
{
	array<V, R>(in, out, n, sizeof(V) / sizeof(R), sizeof(V) / sizeof(R), 0, 0, [&](V* d, const V* s, size_t k, size_t, size_t) { f(d, s, k); });
}

template <class R> struct Op34
{
	typedef Mat34<R> M;
	static Aff of(const M& m) { return { LM::of(m.rs), L3::of(m.t) }; }
	static L bottom(const M&) { return 0; }
	static const char* name() { return "3x4"; }
	static void log(const M& m) { ev3(L3::of(m.rs.x)); ev3(L3::of(m.rs.y)); ev3(L3::of(m.rs.z)); ev3(L3::of(m.t)); }
	static void reset(M& m, int how, const Vec3<R>& ax, R ang, int c, const Vec3<R>& t)
	{
		Quat<R> q; q.set(ax, ang);
		Mat3<R> r; r.set(ax, ang);
		switch (md(how, 11))
		{
		case 0: m.setIdentity(); break;
		case 1: m.set(q, t); break;
		case 2: m.set(ax, ang, t); break;
		case 3: m.set((Coord)c, ang, t); break;
		case 4: m.set(r, t); break;
		case 5: m.set(r.x, r.y, r.z, t); break;
		case 6: m = M(r, t); break;
		case 8: m = M::from(ax, ang, t); break;
		case 9: m = M::from(r.x, r.y, r.z, t); break;
		case 10: m.setIdentity(); m[Coord::X] = r.x; m[Coord::Y] = r.y; m[Coord::Z] = r.z; m.t = t; m.optimize(); break;
		default: m = M::from(q, t); break;
		}
	}
	static void translate(M& m, const Vec3<R>& v, bool pre, int how)
	{
		if (how & 1) { if (pre) m.translatePre(v); else m.translate(v); return; }
		M k; k.set(Mat3<R>(R(1)), v);
		if (pre) PUT(m, m * k); else PUT(m, k * m);
	}
	static void rotate(M& m, const Vec3<R>& ax, R ang, int c, bool pre, int how)
	{
		Quat<R> q; q.set(ax, ang);
		Mat3<R> r; r.set(ax, ang);
		switch (md(how, 6))
		{
		case 0: pre ? m.rotatePre(q) : m.rotate(q); break;
		case 1: pre ? m.rotatePre(ax, ang) : m.rotate(ax, ang); break;
		case 2: if (c >= 0) pre ? m.rotatePre((Coord)c, ang) : m.rotate((Coord)c, ang); else pre ? m.rotatePre(ax, ang) : m.rotate(ax, ang); break;
		case 3: pre ? m.transformPre(r) : m.transform(r); break;
		case 4: if (pre) m *= r; else PUT(m, M(r) * m); break;
		default: if (pre) PUT(m, m * r); else m.transform(M(r)); break;
		}
	}
	static void scale(M& m, const Vec3<R>& c, bool pre, int) { pre ? m.scalePre(c) : m.scale(c); }
	static void transform(M& m, const M& k, bool pre, int how)
	{
		switch (md(how, 4))
		{
		case 0: pre ? m.transformPre(k) : m.transform(k); break;
		case 1: if (pre) PUT(m, m * k); else PUT(m, k * m); break;
		case 2: { M d; if (pre) M::multiply(d, m, k); else M::multiply(d, k, m); m = d; break; }
		default: if (pre) m *= k; else m.transform(k); break;
		}
	}
	static void invert(M& m, int) { m.invert(); }
	static void map(const M& m, const Vec3<R>* in, Vec3<R>* out, int n, int how, L eW)
	{
		switch (md(how, 4))
		{
		case 0: for (int i = 0; i < n; i++) out[i] = m * in[i]; break;
		case 1: for (int i = 0; i < n; i++) m.transform(out[i], in[i]); break;
		case 2: packed<R>(in, out, n, [&](Vec3<R>* d, const Vec3<R>* s, size_t k) { m.transform(d, s, k); }); break;
		default:
		{
			strided<Vec3<R>, R>(in, out, n, how >> 3, [&](Vec3<R>* d, const Vec3<R>* s, size_t k, size_t ds, size_t ss) { m.transform(d, s, k, ds, ss); });
		}
		}
	}
	static bool mapVector(const M&, const Vec3<R>*, Vec3<R>*, int, int) { return false; }
};
template <class R> struct Op4
{
	typedef Mat4<R> M;
	static Aff of(const M& m) { return { LM(L3::of(m.x.toVec3()), L3::of(m.y.toVec3()), L3::of(m.z.toVec3())), L3::of(m.t.toVec3()) }; }
	static L bottom(const M& m) { return m.x.w == 0 && m.y.w == 0 && m.z.w == 0 ? fabsl((L)m.t.w - 1) : 1; }
	static const char* name() { return "4x4"; }
	static void log(const M& m) { for (int i = 0; i < 16; i++) evd(m.data()[i]); }
	static void reset(M& m, int how, const Vec3<R>& ax, R ang, int c, const Vec3<R>& t)
	{
		Quat<R> q; q.set(ax, ang);
		Mat3<R> r; r.set(ax, ang);
		switch (md(how, 11))
		{
		case 0: m.setIdentity(); break;
		case 1: m.set(q, t); break;
		case 2: m.set(ax, ang); m.translate(t); break;
		case 3: m.set((Coord)c, ang); m.translate(t); break;
		case 4: m.set(r.x, r.y, r.z, t); break;
		case 5: m = M(r.x, r.y, r.z, t); break;
		case 8: m = M::from(ax, ang); m.translate(t); break;
		case 9: m = M::from(r.x, r.y, r.z, t); break;
		case 10: m.setIdentity(); m[Coord::X] = Vec4<R>(r.x, R(0)); m[Coord::Y] = Vec4<R>(r.y, R(0)); m[Coord::Z] = Vec4<R>(r.z, R(0)); m.t = Vec4<R>(t, R(1)); m.optimize(); break;
		case 6: m.set(Vec4<R>(r.x, R(0)), Vec4<R>(r.y, R(0)), Vec4<R>(r.z, R(0)), Vec4<R>(t, R(1))); break;
		default: m = M::from(q, t); break;
		}
	}
	static void translate(M& m, const Vec3<R>& v, bool pre, int how)
	{
		switch (md(how, 3))
		{
		case 0: pre ? m.translatePre(v) : m.translate(v); break;
		case 1: PUT(m, pre ? m.translatedPre(v) : m.translated(v)); ctr(COPIES); break;
		default: { M k; k.setIdentity(); k.translate(v); PUT(m, pre ? m * k : k * m); }
		}
	}
	static void rotate(M& m, const Vec3<R>& ax, R ang, int c, bool pre, int how)
	{
		Quat<R> q; q.set(ax, ang);
		M r; r.set(ax, ang);
		switch (md(how, 8))
		{
		case 0: pre ? m.rotatePre(q) : m.rotate(q); break;
		case 1: pre ? m.rotatePre(ax, ang) : m.rotate(ax, ang); break;
		case 2: if (c >= 0) pre ? m.rotatePre((Coord)c, ang) : m.rotate((Coord)c, ang); else pre ? m.rotatePre(ax, ang) : m.rotate(ax, ang); break;
		case 3: PUT(m, pre ? m.rotatedPre(q) : m.rotated(q)); ctr(COPIES); break;
		case 4: PUT(m, pre ? m.rotatedPre(ax, ang) : m.rotated(ax, ang)); ctr(COPIES); break;
		case 5: if (c >= 0) PUT(m, pre ? m.rotatedPre((Coord)c, ang) : m.rotated((Coord)c, ang)); else PUT(m, pre ? m.rotatedPre(ax, ang) : m.rotated(ax, ang)); ctr(COPIES); break;
		case 6: PUT(m, pre ? m * r : r * m); break;
		default: pre ? m.transformPre(r) : m.transform(r); break;
		}
	}
	static void scale(M& m, const Vec3<R>& c, bool pre, int how)
	{
		if (how & 1) pre ? m.scalePre(c) : m.scale(c);
		else { PUT(m, pre ? m.scaledPre(c) : m.scaled(c)); ctr(COPIES); }
	}
	static void transform(M& m, const M& k, bool pre, int how)
	{
		switch (md(how, 4))
		{
		case 0: pre ? m.transformPre(k) : m.transform(k); break;
		case 1: PUT(m, pre ? m * k : k * m); break;
		case 2: PUT(m, pre ? m.transformedPre(k) : m.transformed(k)); ctr(COPIES); break;
		default: { M d; if (pre) M::multiply(d, m, k); else M::multiply(d, k, m); m = d; }
		}
	}
	static void invert(M& m, int how) { if (how & 1) m.invert(); else { PUT(m, m.inversed()); ctr(COPIES); } }
	static void map(const M& m, const Vec3<R>* in, Vec3<R>* out, int n, int how, L eW)
	{
		switch (md(how, 8))
		{
		case 0: for (int i = 0; i < n; i++) out[i] = m * in[i]; break;
		case 1: for (int i = 0; i < n; i++) m.transform(out[i], in[i]); break;
		case 2: packed<R>(in, out, n, [&](Vec3<R>* d, const Vec3<R>* s, size_t k) { m.transform(d, s, k); }); break;
		case 3:
		{
			strided<Vec3<R>, R>(in, out, n, how >> 3, [&](Vec3<R>* d, const Vec3<R>* s, size_t k, size_t ds, size_t ss) { m.transform(d, s, k, ds, ss); });
			break;
		}
		case 4: for (int i = 0; i < n; i++) { Vec4<R> v = m * Vec4<R>(in[i], R(1)); out[i] = v.toVec3(); w(v.w, eW); } break;
		case 5: for (int i = 0; i < n; i++) { Vec4<R> v; m.transform(v, Vec4<R>(in[i], R(1))); out[i] = v.toVec3(); w(v.w, eW); } break;
		case 6:
		{
			Vec4<R> a[NP], b[NP];
			for (int i = 0; i < n; i++) a[i] = Vec4<R>(in[i], R(1));
			packed<R>(a, b, n, [&](Vec4<R>* d, const Vec4<R>* s, size_t k) { m.transform(d, s, k); });
			for (int i = 0; i < n; i++) { out[i] = b[i].toVec3(); w(b[i].w, eW); }
			break;
		}
		default:
		{
			Vec4<R> a[NP], b[NP];
			for (int i = 0; i < n; i++) a[i] = Vec4<R>(in[i], R(1));
			strided<Vec4<R>, R>(a, b, n, how >> 3, [&](Vec4<R>* d, const Vec4<R>* s, size_t k, size_t ds, size_t ss) { m.transform(d, s, k, ds, ss); });
			for (int i = 0; i < n; i++) { out[i] = b[i].toVec3(); w(b[i].w, eW); }
		}
		}
	}
	static void w(R got, L e) { if (!(fabsl((L)got - 1) <= e)) rep_violation("w", "a point mapped by a 4x4 transform came back with w = %.9g", (double)got); }
	static bool mapVector(const M& m, const Vec3<R>* in, Vec3<R>* out, int n, int how)
	{
		switch (md(how, 7))
		{
		case 0: for (int i = 0; i < n; i++) m.transformVector(out[i], in[i]); break;
		case 1: packed<R>(in, out, n, [&](Vec3<R>* d, const Vec3<R>* s, size_t k) { m.transformVector(d, s, k); }); break;
		case 2: strided<Vec3<R>, R>(in, out, n, how >> 3, [&](Vec3<R>* d, const Vec3<R>* s, size_t k, size_t ds, size_t ss) { m.transformVector(d, s, k, ds, ss); }); break;
		case 4: { Vec4<R> a[NP], b[NP]; for (int i = 0; i < n; i++) a[i] = Vec4<R>(in[i], R(0)); strided<Vec4<R>, R>(a, b, n, how >> 3, [&](Vec4<R>* d, const Vec4<R>* s, size_t k, size_t ds, size_t ss) { m.transformVector(d, s, k, ds, ss); }); for (int i = 0; i < n; i++) out[i] = b[i].toVec3(); break; }
		case 5: for (int i = 0; i < n; i++) { Vec4<R> v; m.transformVector(v, Vec4<R>(in[i], R(0))); out[i] = v.toVec3(); } break;
		case 3: { Vec4<R> a[NP], b[NP]; for (int i = 0; i < n; i++) a[i] = Vec4<R>(in[i], R(0)); packed<R>(a, b, n, [&](Vec4<R>* d, const Vec4<R>* s, size_t k) { m.transformVector(d, s, k); }); for (int i = 0; i < n; i++) out[i] = b[i].toVec3(); break; }
		default: for (int i = 0; i < n; i++) out[i] = (m * Vec4<R>(in[i], R(0))).toVec3(); break;
		}
		return true;
	}
};

template <class R, class O> struct Sim
{
	typedef typename O::M M;
	// A state the transform has been in: what it should be, and how far rounding may have moved it.
	struct State { Aff ref; L eM, eT, eW; };
	struct Done { Aff a; bool pre; int kind; Vec3<R> v; R ang; int coord; M k; L kW; State before; };
	struct Slot { M m; State s; std::vector<Done> log; bool on = false; };
	struct Ckpt { Slot s; bool on = false; };
	Slot slot[NS]; Ckpt ck[NS];
	Vec3<R> probe[NP];
	L worst1 = 0, worstN = 0;
	L eps = epsOf<R>();
	bool skipped = false;

	// the transform as it is must be this, up to one step's rounding
	bool near(const M& m, const Aff& want, L tolM, L tolT, L eW)
	{
		Aff a = O::of(m);
		L dM = a.m.dist(want.m), dT = (a.t - want.t).maxabs();
		bool ok = dM <= tolM && dT <= tolT;
		if (ok) { worst1 = fmaxl(worst1, dM / fmaxl(tolM, 1e-4000L)); worst1 = fmaxl(worst1, dT / fmaxl(tolT, 1e-4000L)); }
		return ok && O::bottom(m) <= eW;
	}
	void bad(const char* cls, const char* what, const M& m, const Aff& want)
	{
		Aff a = O::of(m);
		rep_violation(cls, "%s on a %s transform of %s: x (%.7Lg %.7Lg %.7Lg) y (%.7Lg %.7Lg %.7Lg) z (%.7Lg %.7Lg %.7Lg) t (%.7Lg %.7Lg %.7Lg), expected x (%.7Lg %.7Lg %.7Lg) y (%.7Lg %.7Lg %.7Lg) z (%.7Lg %.7Lg %.7Lg) t (%.7Lg %.7Lg %.7Lg)%s", what, O::name(), sizeof(R) == 4 ? "float" : "double",
			a.m.x.x, a.m.x.y, a.m.x.z, a.m.y.x, a.m.y.y, a.m.y.z, a.m.z.x, a.m.z.y, a.m.z.z, a.t.x, a.t.y, a.t.z,
			want.m.x.x, want.m.x.y, want.m.x.z, want.m.y.x, want.m.y.y, want.m.y.z, want.m.z.x, want.m.z.y, want.m.z.z, want.t.x, want.t.y, want.t.z, O::bottom(m) == 0 ? "" : "; bottom row is not 0 0 0 1");
	}
	// One step: kind 0 translate v, 1 rotate (axis v, angle), 2 scale v, 3 transform by k
	void step(Slot& s, int kind, const Vec3<R>& v, R ang, int coord, const M& k, L kW, bool pre, int how, bool record)
	{
		static const char* const NAME[2][4] = { { "translate", "rotate", "scale", "transform" }, { "translatePre", "rotatePre", "scalePre", "transformPre" } };
		Aff before = O::of(s.m);
		Aff a;
		if (kind == 0) a = { LM(), L3::of(v) };
		else if (kind == 1) a = { LM::rot(L3::of(v), ang), L3() };
		else if (kind == 2) a = { LM::diag(L3::of(v)), L3() };
		else a = O::of(k);
		// keep magnitudes where float neither overflows nor underflows
		L sizeM = nrm(before.m) * nrm(a.m), sizeT = before.t.len() * nrm(a.m) + nrm(before.m) * a.t.len() + a.t.len();
		if (sizeM > 1e6L || sizeT > 1e9L || fabsl(before.m.det() * a.m.det()) < 1e-9L) { s.log.clear(); skipped = true; return; }
		Done d = { a, pre, kind, v, ang, coord, k, kW, s.s };
		if (kind == 0) { O::translate(s.m, v, pre, how); ctr(TRANSLATE); }
		else if (kind == 1) { O::rotate(s.m, v, ang, coord, pre, how); ctr(ROTATE); }
		else if (kind == 2) { O::scale(s.m, v, pre, how); ctr(SCALE); }
		else { O::transform(s.m, k, pre, how); ctr(TRANSFORM); }
		ctr(STEPS); if (pre) ctr(PRES);
		O::log(s.m);
		Aff want = pre ? mul(before, a) : mul(a, before);
		const Aff &l = pre ? before : a, &r = pre ? a : before;
		L nl = nrm(l.m), nr = nrm(r.m);
		// an operand within rounding of the identity counts as the identity, translation included
		L tolM = ST * eps * nl * nr, tolT = ST * eps * (nl * (1 + r.t.len()) + l.t.len()) + s.s.eW * (l.t.len() + r.t.len());
		if (kind == 3) tolT += kW * (l.t.len() + r.t.len());
		L eW = s.s.eW > 0 || kW > 0 ? s.s.eW + kW + 4 * eps : 0;
		bool ok = near(s.m, want, tolM, tolT, eW);
		Aff refA = a;
		if (!ok && kind == 2 && !pre)
		{
			// the listed finding: scale() scales the columns of the linear part
			Aff alt = { before.m * a.m, L3(before.t.x * a.m.x.x, before.t.y * a.m.y.y, before.t.z * a.m.z.z) };
			if (near(s.m, alt, tolM, tolT, eW))
			{
				ctr(KNOWNS);
				rep_known("C16-scale", "%s%s::scale of a rotated transform by unequal coefficients", "Mat", O::name());
				Aff sref = { s.s.ref.m * a.m, L3(s.s.ref.t.x * a.m.x.x, s.s.ref.t.y * a.m.y.y, s.s.ref.t.z * a.m.z.z) };
				L n = nrm(a.m);
				s.s = { sref, s.s.eM * n + tolM, s.s.eT * n + tolT, eW };
				if (record) s.log.push_back(d);
				return;
			}
		}
		if (!ok) return bad("step", NAME[pre][kind], s.m, want);
		// carry the reference on from the exact history, with the rounding allowed so far
		if (pre) s.s = { mul(s.s.ref, refA), 3 * s.s.eM * nrm(a.m) + tolM, s.s.eT + 3 * s.s.eM * a.t.len() + tolT, eW };
		else s.s = { mul(refA, s.s.ref), 3 * nrm(a.m) * s.s.eM + tolM, 3 * nrm(a.m) * s.s.eT + tolT, eW };
		if (record) s.log.push_back(d);
	}
	void mapping(Slot& s, int how)
	{
		Vec3<R> out[NP];
		Aff a = O::of(s.m);
		O::map(s.m, probe, out, NP, how, s.s.eW);
		L n = nrm(a.m);
		for (int i = 0; i < NP && !rep_violated(); i++)
		{
			L3 p = L3::of(probe[i]), got = L3::of(out[i]), one = a * p, hist = s.s.ref * p;
			ev3(got); ctr(MAPPED);
			L tol = 16 * eps * (n * p.len() + a.t.len());
			if (!((got - one).maxabs() <= tol))
				rep_violation("mapping", "mapping call %d of a %s transform takes (%.9Lg %.9Lg %.9Lg) to (%.9Lg %.9Lg %.9Lg), its elements give (%.9Lg %.9Lg %.9Lg)", (int)md(how, 8), O::name(), p.x, p.y, p.z, got.x, got.y, got.z, one.x, one.y, one.z);
			L e = 3 * s.s.eM * p.len() + s.s.eT + tol;
			if (e < 1e-2L * (n * p.len() + a.t.len()))
			{
				worstN = fmaxl(worstN, (got - hist).maxabs() / e);
				if (!((got - hist).maxabs() <= e)) rep_violation("history", "a %s transform takes (%.9Lg %.9Lg %.9Lg) to (%.9Lg %.9Lg %.9Lg), its %zu steps one by one give (%.9Lg %.9Lg %.9Lg) (allowed %.3Lg)", O::name(), p.x, p.y, p.z, got.x, got.y, got.z, s.log.size(), hist.x, hist.y, hist.z, e);
			}
		}
		if (!rep_violated() && O::mapVector(s.m, probe, out, NP, how >> 3))
			for (int i = 0; i < NP && !rep_violated(); i++)
			{
				L3 p = L3::of(probe[i]), got = L3::of(out[i]), want = a.m * p;
				ev3(got);
				if (!((got - want).maxabs() <= 16 * eps * n * p.len())) rep_violation("mapping", "direction mapping call %d of a 4x4 transform takes (%.9Lg %.9Lg %.9Lg) to (%.9Lg %.9Lg %.9Lg), its elements give (%.9Lg %.9Lg %.9Lg)", (int)md(how >> 3, 5), p.x, p.y, p.z, got.x, got.y, got.z, want.x, want.y, want.z);
			}
	}
	// its axes as rays and its planes start at its origin and point along its columns
	void frame(const M& m)
	{
		static const Coord C[] = { Coord::X, Coord::Y, Coord::Z };
		static const Axis A[] = { Axis::X, Axis::Y, Axis::Z, Axis::NX, Axis::NY, Axis::NZ };
		Aff a = O::of(m);
		L3 t = a.t;
		for (int i = 0; i < 9 && !rep_violated(); i++)
		{
			L3 col = (i % 3 == 0 ? a.m.x : i % 3 == 1 ? a.m.y : a.m.z) * (i >= 3 && i < 6 ? -1 : 1);
			if (col.len() < 1e-6L) continue;
			L3 u = col * (1 / col.len());
			ctr(FRAMES);
			L3 el = L3::of(vec(m[C[i % 3]]));
			if ((el - (i >= 3 && i < 6 ? col * -1 : col)).maxabs() != 0) rep_violation("frame", "an element row of a %s transform named by its coordinate is another", O::name());
			if (i < 6)
			{
				Plane<R> p = m.localPlane(A[i]);
				if (i < 3) { Plane<R> q = m.localPlane(C[i]); if (q.normal != p.normal || q.d != p.d) rep_violation("frame", "the local plane of a %s transform by coordinate is not that by axis", O::name()); }
				if (!((L3::of(p.normal) - u).maxabs() <= 8 * eps) || !(fabsl(p.d - u.dot(t)) <= 16 * eps * t.len())) rep_violation("frame", "local plane %d of a %s transform has normal (%.9Lg %.9Lg %.9Lg) and distance %.9Lg, not (%.9Lg %.9Lg %.9Lg) and %.9Lg", i, O::name(), (L)p.normal.x, (L)p.normal.y, (L)p.normal.z, (L)p.d, u.x, u.y, u.z, u.dot(t));
			}
			else
			{
				Ray3<R> r = m.localAxis(C[i - 6]);
				if ((L3::of(r.start) - t).maxabs() != 0 || !((L3::of(r.direction) - u).maxabs() <= 8 * eps)) rep_violation("frame", "local axis %d of a %s transform starts at (%.9Lg %.9Lg %.9Lg) along (%.9Lg %.9Lg %.9Lg)", i - 6, O::name(), (L)r.start.x, (L)r.start.y, (L)r.start.z, (L)r.direction.x, (L)r.direction.y, (L)r.direction.z);
			}
		}
	}
	static Vec3<R> vec(const Vec3<R>& v) { return v; }
	static Vec3<R> vec(const Vec4<R>& v) { return v.toVec3(); }
	// the points are where the earlier state had them
	void returned(Slot& s, const State& old, const char* what)
	{
		Vec3<R> out[NP];
		O::map(s.m, probe, out, NP, 2, s.s.eW);
		for (int i = 0; i < NP && !rep_violated(); i++)
		{
			L3 p = L3::of(probe[i]), got = L3::of(out[i]), want = old.ref * p;
			ctr(RETURNED);
			L size = nrm(old.ref.m) * p.len() + old.ref.t.len();
			L e = 3 * (s.s.eM + old.eM) * p.len() + s.s.eT + old.eT + 16 * eps * size;
			if (e < 1e-2L * size)
			{
				worstN = fmaxl(worstN, (got - want).maxabs() / e);
				if (!((got - want).maxabs() <= e)) rep_violation("undo", "after %s a %s transform takes (%.9Lg %.9Lg %.9Lg) to (%.9Lg %.9Lg %.9Lg), it was (%.9Lg %.9Lg %.9Lg) (allowed %.3Lg)", what, O::name(), p.x, p.y, p.z, got.x, got.y, got.z, want.x, want.y, want.z, e);
			}
		}
	}
	// inverts m; expects the exact inverse up to its conditioning
	bool wellConditioned(const M& m)
	{
		Aff a = O::of(m);
		L c = 3 * nrm(a.m) * nrm(a.m.inversed());
		return c < 1e18L && ST * eps * c * c < 0.05L;
	}
	bool inverse(M& m, L mW, int how, Aff& exact, L& tolM, L& tolT, L& tolW)
	{
		Aff a = O::of(m);
		LM inv = a.m.inversed();
		exact = { inv, inv * a.t * -1 };
		L ni = nrm(inv), na = nrm(a.m);
		L cond = 3 * ni * na;
		// 4x4: cofactors with the translation included
		tolM = ST * eps * cond * cond * ni;
		tolT = ST * eps * cond * cond * (ni * a.t.len()) + ST * eps * (1 + exact.t.len());
		tolW = ST * eps * cond * cond + mW;
		tolM += mW * ni; tolT += mW * (1 + exact.t.len());
		O::invert(m, how);
		ctr(INVERTED);
		O::log(m);
		Aff got = O::of(m);
		L dM = got.m.dist(exact.m), dT = (got.t - exact.t).maxabs();
		bool ok = dM <= tolM && dT <= tolT && O::bottom(m) <= tolW;
		if (ok) worst1 = fmaxl(worst1, fmaxl(dM / tolM, dT / tolT));
		else bad("invert", "invert", m, exact);
		return ok;
	}
	void exec(const Plan& p)
	{
		for (int i = 0; i < NP; i++) probe[i] = Vec3<R>(R(i == 1), R(i == 2), R(i == 3));
		probe[4] = Vec3<R>(R(-7.25), R(3.5), R(11));
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			Slot& s = slot[md(st.arg(0), NS)];
			auto axis = [&](int o, int c) { return c >= 0 ? Vec3<R>(R(c == 0), R(c == 1), R(c == 2)) : V3<R>(dirOf(st.arg(o), st.arg(o + 1), st.arg(o + 2))); };
			auto angle = [&](i64 sel, i64 v) -> R
			{
				static const L sp[] = { 0, 1.5707963267948966192L, 3.1415926535897932385L, -1.5707963267948966192L };
				if (md(sel, 3) == 0) return (R)sp[md(v, 4)];
				if (md(sel, 3) == 1) return (R)ldexpl(v & 1 ? -1 : 1, -(int)md(v >> 1, sizeof(R) == 4 ? 26 : 55));
				return (R)fx(v % 8192);
			};
			if (st.k == "new")
			{
				int c = (int)md(st.arg(2), 3);
				int how = (int)md(st.arg(1), 11);
				Vec3<R> ax = how == 3 ? axis(0, c) : axis(3, -1);
				R ang = angle(st.arg(6), st.arg(7));
				Vec3<R> t((R)fx(st.arg(8)), (R)fx(st.arg(9)), (R)fx(st.arg(10)));
				if (how == 0) t = Vec3<R>(0, 0, 0);
				s.log.clear();
				O::reset(s.m, how, ax, ang, c, t);
				O::log(s.m);
				s.on = true;
				shape(how);
				Aff want = { how == 0 ? LM() : LM::rot(L3::of(ax), ang), L3::of(t) };
				s.s = { want, ST * eps, 0, 0 };
				if (!near(s.m, want, ST * eps, 0, 0)) bad("set", "set", s.m, want);
			}
			else if (!s.on) continue;
			else if (st.k == "translate" || st.k == "scale" || st.k == "rotate")
			{
				bool pre = st.arg(1) & 1;
				int how = (int)md(st.arg(2), 48);
				shape(pre + 2 * how);
				if (st.k == "translate")
				{
					int e = (int)md(st.arg(6), 8);
					Vec3<R> v((R)(fx(st.arg(3)) * ldexp(1, e == 7 ? -20 : 0)), (R)(fx(st.arg(4)) * ldexp(1, e == 7 ? -20 : 0)), (R)(fx(st.arg(5)) * ldexp(1, e == 7 ? -20 : 0)));
					step(s, 0, v, 0, -1, s.m, 0, pre, how, true);
				}
				else if (st.k == "scale")
				{
					R c[3];
					for (int i = 0; i < 3; i++) { i64 a = st.arg(3 + i); c[i] = (R)ldexp(1 + (double)md(a, 1024) / 1024, (int)md(a >> 10, 4) - 2); if ((a >> 12) & 1) c[i] = -c[i]; }
					if (st.arg(6) & 1) c[1] = c[2] = c[0];
					if (st.arg(6) & 2) c[md(st.arg(6) >> 2, 3)] = 1;
					step(s, 2, Vec3<R>(c[0], c[1], c[2]), 0, -1, s.m, 0, pre, how, true);
				}
				else
				{
					int c = (int)md(st.arg(3), 4) - 1;
					step(s, 1, axis(4, c), angle(st.arg(7), st.arg(8)), c, s.m, 0, pre, how, true);
				}
				if (!rep_violated()) mapping(s, (int)md(st.arg(9), 64));
			}
			else if (st.k == "transform")
			{
				Slot& o = slot[md(st.arg(1), NS)];
				if (!o.on || &o == &s) continue;
				shape(md(st.arg(2), 8));
				M k = o.m;
				step(s, 3, Vec3<R>(), 0, -1, k, o.s.eW, st.arg(2) & 1, 1 + (int)md(st.arg(2) >> 1, 12), true);
				if (!rep_violated()) mapping(s, (int)md(st.arg(3), 64));
			}
			else if (st.k == "map") { mapping(s, (int)md(st.arg(1), 8192)); if (!rep_violated()) frame(s.m); }
			else if (st.k == "undo")
			{
				// undo the last steps by their inverses, one by one
				int n = 1 + (int)md(st.arg(1), 12);
				State target = s.s;
				int done = 0;
				skipped = false;
				shape(n);
				for (; n > 0 && !s.log.empty() && !rep_violated() && !skipped; n--, done++)
				{
					Done d = s.log.back(); s.log.pop_back();
					target = d.before;
					int how = (int)(mix64(st.arg(2), n) % 48);
					ctr(UNDONE);
					if (d.kind == 0) step(s, 0, -d.v, 0, -1, s.m, 0, d.pre, how, false);
					else if (d.kind == 1) step(s, 1, d.v, -d.ang, d.coord, s.m, 0, d.pre, how, false);
					else if (d.kind == 2)
					{
						Vec3<R> c(1 / d.v.x, 1 / d.v.y, 1 / d.v.z);
						step(s, 2, c, 0, -1, s.m, 0, d.pre, how, false);
						L n1 = nrm(s.s.ref.m);
						s.s.eM += 2 * eps * n1; s.s.eT += 2 * eps * s.s.ref.t.len();
					}
					else
					{
						M k = d.k; Aff ex; L tm, tt, tw;
						if (!wellConditioned(k)) { s.log.clear(); skipped = true; break; }
						if (!inverse(k, d.kW, how, ex, tm, tt, tw)) return;
						L nk = nrm(s.s.ref.m);
						State b = s.s;
						step(s, 3, Vec3<R>(), 0, -1, k, tw, d.pre, 1 + how % 12, false);
						// the inverse itself is only as good as its conditioning
						s.s.ref = d.pre ? mul(b.ref, ex) : mul(ex, b.ref);
						if (d.pre) { s.s.eM += 3 * nk * tm; s.s.eT += 3 * nk * tt; }
						else { s.s.eM += 3 * nk * tm; s.s.eT += 3 * tm * b.ref.t.len() + tt; }
					}
				}
				if (done && !skipped && !rep_violated()) returned(s, target, "undoing its last steps");
			}
			else if (st.k == "invert")
			{
				// invert the whole transform: points come back where they were
				M inv = s.m; Aff ex; L tm, tt, tw;
				if (!wellConditioned(inv)) continue;
				if (!inverse(inv, s.s.eW, (int)md(st.arg(1), 8), ex, tm, tt, tw)) return;
				Vec3<R> a[NP], b[NP];
				O::map(s.m, probe, a, NP, (int)md(st.arg(2), 8), s.s.eW);
				O::map(inv, a, b, NP, (int)md(st.arg(2) >> 3, 8), tw);
				Aff f = O::of(s.m);
				for (int i = 0; i < NP && !rep_violated(); i++)
				{
					ctr(RETURNED);
					L3 p = L3::of(probe[i]), got = L3::of(b[i]);
					L e = 3 * tm * L3::of(a[i]).len() + tt + 3 * nrm(ex.m) * 16 * eps * (nrm(f.m) * p.len() + f.t.len()) + 16 * eps * (ex.t.len() + p.len());
					if (!((got - p).maxabs() <= e)) rep_violation("invert", "mapping by a %s transform and its inverse takes (%.9Lg %.9Lg %.9Lg) to (%.9Lg %.9Lg %.9Lg) (allowed %.3Lg)", O::name(), p.x, p.y, p.z, got.x, got.y, got.z, e);
				}
				if (st.arg(3) & 1)
				{
					// the inverse becomes the transform, with a history of its own
					s.m = inv; s.log.clear(); s.s = { O::of(inv), 0, 0, tw };
				}
			}
			else if (st.k == "save") { ctr(CHECKPOINTS); ck[md(st.arg(1), NS)].s = s; ck[md(st.arg(1), NS)].on = true; }
			else if (st.k == "load")
			{
				// the process lost the transform and reloads a checkpoint, as an object or as bare elements
				Ckpt& c = ck[md(st.arg(1), NS)];
				if (!c.on) continue;
				ctr(ROLLBACKS);
				s = c.s;
				int how = (int)md(st.arg(2), 4);
				if (how == 1) { M m; m.set(c.s.m); s.m = m; }
				else if (how == 2) { M m; int n = sizeof(M) >= 16 * sizeof(R) && O::name()[2] == '4' && O::name()[0] == '4' ? 16 : 9; for (int i = 0; i < n; i++) m.data()[i] = c.s.m.data()[i]; fix(m, c.s.m); s.m = m.optimize(); }
				else if (how == 3) s.m = c.s.m.template cast<double>().template cast<R>();
				returned(s, s.s, "reloading a checkpoint");
			}
		}
		if (getenv("SIM_WORST")) fprintf(stderr, "worst %.4Lf %.4Lf\n", worst1, worstN);
	}
	static void fix(Mat34<R>& m, const Mat34<R>& s) { m.t = s.t; }
	static void fix(Mat4<R>&, const Mat4<R>&) {}
};
}
const char* const names_C16[] = { "elementary steps", "translations", "rotations", "scalings", "transforms by a composed transform", "Pre steps", "copying variants", "steps undone by their inverse", "inversions", "checkpoints", "rollbacks to a checkpoint", "points mapped", "points returned by an undo or inversion", "meetings of finding C16-scale", "local axes and planes", "arrays of other lengths mapped", nullptr };
void gen_C16(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 3) });
	auto fresh = [&](i64 s)
	{
		Step st("new", { s, r.range(0, 10), r.range(0, 2), r.range(-2000, 2000), r.range(-2000, 2000), r.range(-2000, 2000), r.range(0, 2), r.range(-8000, 8000) });
		i64 big = r.chance(0.2) ? 100000000 : 20000;
		for (int i = 0; i < 3; i++) st.a.push_back(r.chance(0.2) ? 0 : r.range(-big, big));
		p.steps.push_back(st);
	};
	int ns = (int)r.range(1, NS);
	for (int i = 0; i < ns; i++) fresh(i);
	int n = (int)r.range(6, tier ? 120 : 50);
	double pScale = r.chance(0.4) ? 0 : 0.15;
	for (int i = 0; i < n; i++)
	{
		i64 s = r.range(0, ns - 1);
		double u = r.unit();
		if (u < 0.18) p.add("translate", { s, r.range(0, 1), r.range(0, 47), r.range(-20000, 20000), r.chance(0.2) ? 0 : r.range(-20000, 20000), r.chance(0.2) ? 0 : r.range(-20000, 20000), r.range(0, 7), 0, 0, r.range(0, 63) });
		else if (u < 0.42) { i64 k = r.range(0, 2); p.add("rotate", { s, r.range(0, 1), r.range(0, 47), r.range(0, 3), r.range(-2000, 2000), r.range(-2000, 2000), r.range(-2000, 2000), k, k == 2 ? r.range(-8000, 8000) : r.range(0, 200), r.range(0, 63) }); }
		else if (u < 0.42 + pScale) p.add("scale", { s, r.range(0, 1), r.range(0, 47), r.range(0, 8191), r.range(0, 8191), r.range(0, 8191), r.chance(0.3) ? 1 : r.range(0, 15), 0, 0, r.range(0, 63) });
		else if (u < 0.68) p.add("transform", { s, r.range(0, ns - 1), r.range(0, 23), r.range(0, 63) });
		else if (u < 0.76) p.add("undo", { s, r.range(0, 11), r.range(0, 1 << 20) });
		else if (u < 0.82) p.add("invert", { s, r.range(0, 7), r.range(0, 63), r.range(0, 1) });
		else if (u < 0.87) p.add("save", { s, r.range(0, NS - 1) });
		else if (u < 0.91) p.add("load", { s, r.range(0, NS - 1), r.range(0, 3) });
		else if (u < 0.95) p.add("map", { s, r.range(0, 8191) });
		else fresh(s);
	}
}
void exec_C16(const Plan& p)
{
	i64 t = !p.steps.empty() && p.steps[0].k == "type" ? p.steps[0].arg(0) : 0;
	shape(md(t, 4));
	switch (md(t, 4))
	{
	case 0: (*new Sim<float, Op34<float>>).exec(p); break;
	case 1: (*new Sim<double, Op34<double>>).exec(p); break;
	case 2: (*new Sim<float, Op4<float>>).exec(p); break;
	default: (*new Sim<double, Op4<double>>).exec(p); break;
	}
}
