// C30: particles kept as 2-D, 3-D and homogeneous vectors: every step, by whichever equivalent call, against exact arithmetic, through crashes and restores.
#include "h.h"
using namespace mathlib;
namespace {
enum { MOVES, SCALES, DIVIDES, TURNS, MIRRORS, LENGTHS, NULLS, CROSSES, AXISCROSSES, MATRICES, PRODUCTS, EXTREMES, QUERIES, TIES, DROPS, MEETS, PARALLEL, ALIASED, HUGES, TINIES, SAVES, CRASHES };
template <int N> struct LV
{
	L v[N];
	LV() { for (int i = 0; i < N; i++) v[i] = 0; }
	L& operator[](int i) { return v[i]; }
	L operator[](int i) const { return v[i]; }
	L dot(const LV& o) const { L s = 0; for (int i = 0; i < N; i++) s += v[i] * o.v[i]; return s; }
	L mag() const { L m = 0; for (int i = 0; i < N; i++) m = fmaxl(m, fabsl(v[i])); return m; }
};
const Coord C[] = { Coord::X, Coord::Y, Coord::Z, Coord::W };
const Axis A[] = { Axis::X, Axis::Y, Axis::Z, Axis::NX, Axis::NY, Axis::NZ };
template <class V> struct Dim;
template <class R> struct Dim<Vec2<R>> { enum { N = 2 }; };
template <class R> struct Dim<Vec3<R>> { enum { N = 3 }; };
template <class R> struct Dim<Vec4<R>> { enum { N = 4 }; };
template <class R> struct World
{
	typedef Vec2<R> V2; typedef Vec3<R> V3_; typedef Vec4<R> V4;
	enum { NP = 4 };
	struct State { V2 a[NP]; V3_ b[NP]; V4 c[NP]; } live, saved;
	L eps = epsOf<R>(), tiny = 8 * (L)std::numeric_limits<R>::denorm_min();
	World()
	{
		for (int i = 0; i < NP; i++) { live.a[i] = V2(R(i), R(1)); live.b[i] = V3_(R(1), R(i), R(2)); live.c[i] = V4(R(1), R(2), R(i)); }
		saved = live;
	}
	template <class V> static LV<Dim<V>::N> of(const V& v) { LV<Dim<V>::N> r; const R* d = v.data(); for (int i = 0; i < Dim<V>::N; i++) r[i] = d[i]; return r; }
	template <class V> bool is(const char* what, const V& got, const LV<Dim<V>::N>& want, L tol)
	{
		auto g = of(got);
		for (int i = 0; i < Dim<V>::N; i++)
		{
			evd(g[i]);
			if (!(fabsl(g[i] - want[i]) <= tol + tiny)) { rep_violation("step", "element %d of %s is %.17Lg, not %.17Lg (tolerance %.3Lg)", i, what, g[i], want[i], tol); return false; }
		}
		return true;
	}
	bool num(const char* what, L got, L want, L tol)
	{
		evd(got);
		if (!(fabsl(got - want) <= tol + tiny)) { rep_violation("query", "%s is %.17Lg, not %.17Lg (tolerance %.3Lg)", what, got, want, tol); return false; }
		return true;
	}
	static R value(i64 kind, i64 v)
	{
		switch (md(kind, 10))
		{
		case 0: return R(0);
		case 1: return R(1);
		case 2: return R(-1);
		case 3: return (R)(fx(v) * 1e-6);
		case 4: return (R)(fx(v) * 1e4);
		case 5: return (R)(md(v, 9) - 4);
		default: return (R)(fx(v) / 3);
		}
	}
	// steps common to every dimension
	template <class V> bool common(V& p, const V& q, i64 op, i64 how, R k)
	{
		enum { N = Dim<V>::N };
		auto x = of(p), y = of(q), w = x;
		L m = x.mag(), my = y.mag();
		V r = p;
		switch (md(op, 9))
		{
		case 0:
			ctr(MOVES);
			for (int i = 0; i < N; i++) w[i] = x[i] + y[i];
			if (how & 1) r += q; else r = p + q;
			if (!is("a sum", r, w, eps * (m + my))) return false;
			break;
		case 1:
			ctr(MOVES);
			for (int i = 0; i < N; i++) w[i] = x[i] - y[i];
			if (how & 1) r -= q; else if (how & 2) r = p - q; else r = -(q - p);
			if (!is("a difference", r, w, eps * (m + my))) return false;
			break;
		case 2:
			ctr(SCALES);
			for (int i = 0; i < N; i++) w[i] = x[i] * k;
			if (how & 1) r *= k; else r = p * k;
			if (!is("a multiple", r, w, eps * m * fabsl((L)k))) return false;
			break;
		case 3:
			if (k == 0) return true;
			ctr(DIVIDES);
			for (int i = 0; i < N; i++) w[i] = x[i] / k;
			if (how & 1) r /= k; else r = p / k;
			if (!is("a quotient", r, w, 2 * eps * m / fabsl((L)k))) return false;
			break;
		case 4:
			ctr(PRODUCTS);
			for (int i = 0; i < N; i++) w[i] = x[i] * y[i];
			r = V::product(p, q);
			if (!is("a product of elements", r, w, eps * m * my)) return false;
			break;
		case 5:
			ctr(EXTREMES);
			for (int i = 0; i < N; i++) w[i] = (how & 1) ? fminl(x[i], y[i]) : fmaxl(x[i], y[i]);
			r = (how & 1) ? V::min(p, q) : V::max(p, q);
			if (!is((how & 1) ? "the lesser elements" : "the greater elements", r, w, 0)) return false;
			break;
		case 6:
		{
			ctr(MOVES);
			int c = (int)md(how >> 2, N);
			w[c] = x[c] + k;
			r = p.moved(C[c], k);
			if (!is("a vector moved along a coordinate", r, w, eps * (m + fabsl((L)k)))) return false;
			break;
		}
		case 7:
		{
			int c = (int)md(how >> 2, N);
			w[c] = k;
			r.set(C[c], k);
			if (!is("a vector with a coordinate set", r, w, 0)) return false;
			V s; s.set(r);
			if (!is("a vector set from another", s, w, 0) || !is("a copied vector", r.copy(), w, 0)) return false;
			break;
		}
		default:
			ctr(ALIASED);
			if (how & 1) { r += r; for (int i = 0; i < N; i++) w[i] = 2 * x[i]; } else { r -= r; for (int i = 0; i < N; i++) w[i] = 0; }
			if (!is("a vector added to or taken from itself", r, w, 2 * eps * m)) return false;
		}
		L big = of(r).mag();
		for (R f : { R(1), R(1e-30), sizeof(R) == 8 ? R(1e-200) : R(1e-25) }) { V q = r * f; if (q.isNull() != (of(q).mag() == 0)) { rep_violation("query", "a vector of largest element %.9Lg is %s", of(q).mag(), q.isNull() ? "null" : "not null"); return false; } }
		if (big > 1e12L || (big > 0 && big < 1e-12L)) { ctr(big > 1 ? HUGES : TINIES); for (int i = 0; i < N; i++) r.data()[i] = (R)(of(r)[i] / big); }
		// measures of the result
		ctr(QUERIES);
		auto z = of(r);
		L l2 = z.dot(z), d = z.dot(y), ad = 0;
		for (int i = 0; i < N; i++) ad += fabsl(z[i] * y[i]);
		if (!num("a squared length", r.lengthSqr(), l2, 4 * eps * l2) || !num("a length", r.length(), sqrtl(l2), 4 * eps * sqrtl(l2) + sqrtl(tiny)) || !num("a dot product", r * q, d, 4 * eps * ad)) return false;
		if (r.isNull() != (z.mag() == 0)) { rep_violation("query", "a vector of largest element %.9Lg is %s", z.mag(), r.isNull() ? "null" : "not null"); return false; }
		p = r;
		return true;
	}
	template <class V> bool coords(const V& p)
	{
		auto x = of(p);
		enum { N = Dim<V>::N };
		int a = (int)p.majorCoord(), b = (int)p.minorCoord();
		L lo = fabsl(x[0]);
		for (int i = 1; i < N; i++) lo = fminl(lo, fabsl(x[i]));
		if (lo == x.mag()) ctr(TIES);
		if (a < 0 || a >= N || fabsl(x[a]) != x.mag()) { rep_violation("query", "coordinate %d, of a vector with largest element %.9Lg, is named its major one", a, x.mag()); return false; }
		if (b < 0 || b >= N || fabsl(x[b]) != lo) { rep_violation("query", "coordinate %d, of a vector with smallest element %.9Lg, is named its minor one", b, lo); return false; }
		return true;
	}
	template <class V> bool unit(V& p, i64 how, R k)
	{
		ctr(LENGTHS);
		auto x = of(p), w = x;
		L l = sqrtl(x.dot(x));
		if (l > 0 && l < 1e-14L) return true;
		if (l == 0) ctr(NULLS);
		for (auto& e : w.v) e = l > 0 ? e * k / l : 0;
		V r = p;
		R was = 0; bool told = false;
		if (how & 1) { told = true; was = (how & 2) ? r.normalize(k) : (k = 1, r.normalize()); } else if (how & 2) r = p.normalized(k); else { k = 1; r = p.normalized(); }
		if (!(how & 2)) for (int i = 0; i < Dim<V>::N; i++) w[i] = l > 0 ? x[i] / l : 0;
		if (!is("a vector brought to a length", r, w, 8 * eps * fabsl((L)k))) return false;
		if (told && !num("the length a vector had", was, l, 4 * eps * l)) return false;
		p = r;
		return true;
	}
	bool turn3(V3_& p, int c, R ang, i64 how)
	{
		ctr(TURNS);
		L3 ax(c == 0, c == 1, c == 2), w = LM::rot(ax, ang) * L3::of(p);
		LV<3> want; want[0] = w.x; want[1] = w.y; want[2] = w.z;
		V3_ r = p;
		if (how & 1) r.rotate(C[c], ang); else r = p.rotated(C[c], ang);
		if (!is("a vector turned about a coordinate axis", r, want, 4 * eps * of(p).mag())) return false;
		p = r;
		return true;
	}
	bool turn2(V2& p, R ang, i64 how)
	{
		ctr(TURNS);
		auto x = of(p), w = x;
		int q = (int)md(how >> 1, 5);
		L s = q == 1 ? 1 : q == 2 ? 0 : q == 3 ? -1 : sinl(ang), c = q == 1 ? 0 : q == 2 ? -1 : q == 3 ? 0 : cosl(ang);
		w[0] = x[0] * c - x[1] * s; w[1] = x[0] * s + x[1] * c;
		V2 r = p;
		if (q == 1) { if (how & 1) r.rotate90(); else r = p.rotated90(); }
		else if (q == 2) { if (how & 1) r.rotate180(); else r = p.rotated180(); }
		else if (q == 3) { if (how & 1) r.rotate270(); else r = p.rotated270(); }
		else { if (how & 1) r.rotate(ang); else r = p.rotated(ang); }
		if (!is("a vector turned in the plane", r, w, 4 * eps * x.mag())) return false;
		if (r.x != 0 || r.y != 0) { L a = r.angle(), e = atan2l(r.y, r.x); if (!num("the angle of a vector", a, e, 8 * eps)) return false; }
		V2 f = V2::fromAngle(ang, p.x), g; g.setAngle(ang, p.x);
		LV<2> v; v[0] = x[0] * cosl(ang); v[1] = x[0] * sinl(ang);
		if (!is("a vector from angle and length", f, v, 4 * eps * fabsl(x[0])) || f != g) return false;
		p = r;
		return true;
	}
	template <class V> bool mirror(V& p, i64 how)
	{
		ctr(MIRRORS);
		int c = (int)md(how >> 1, Dim<V>::N);
		auto w = of(p);
		w[c] = -w[c];
		V r = p;
		if (how & 1) r.mirror(C[c]); else r = p.mirrored(C[c]);
		if (!is("a mirrored vector", r, w, 0)) return false;
		p = r;
		return true;
	}
	bool cross3(V3_& p, const V3_& q, i64 how)
	{
		L3 a = L3::of(p), b = L3::of(q);
		V3_ r = p;
		int k = (int)md(how >> 1, 8);
		L3 w; L tol = 0;
		if (k < 3) { ctr(AXISCROSSES); w = a.cross(L3(k == 0, k == 1, k == 2)); if (how & 1) r %= C[k]; else r = p % C[k]; }
		else if (k < 6) { ctr(AXISCROSSES); int x = (int)md(how >> 4, 6); L s = x < 3 ? 1 : -1; w = a.cross(L3(x % 3 == 0, x % 3 == 1, x % 3 == 2) * s); if (how & 1) r %= A[x]; else r = p % A[x]; }
		else if (k == 6) { ctr(CROSSES); w = a.cross(b); tol = 4 * eps * a.maxabs() * b.maxabs(); if (how & 1) r %= q; else r = p % q; }
		else { ctr(ALIASED); w = L3(0, 0, 0); tol = 4 * eps * a.maxabs() * a.maxabs(); r %= r; }
		LV<3> want; want[0] = w.x; want[1] = w.y; want[2] = w.z;
		if (!is("a cross product", r, want, tol)) return false;
		if (of(r).mag() > 1e-6L && of(r).mag() < 1e6L) p = r;
		return true;
	}
	bool cross2(const V2& p, const V2& q, const V2& o)
	{
		ctr(CROSSES);
		L t = fabsl((L)p.x * q.y) + fabsl((L)p.y * q.x);
		if (!num("a cross product in the plane", p % q, (L)p.x * q.y - (L)p.y * q.x, 2 * eps * t)) return false;
		L e = (of(p).mag() + of(o).mag()) * (of(q).mag() + of(o).mag());
		return num("the cross product of three points", V2::crossProduct(o, p, q), ((L)p.x - o.x) * ((L)q.y - o.y) - ((L)q.x - o.x) * ((L)p.y - o.y), 8 * eps * e);
	}
	bool matrix3(V3_& p, int c, R ang, i64 how)
	{
		ctr(MATRICES);
		Mat3<R> m; m.set(C[c], ang);
		switch ((how >> 1) & 7)
		{
		case 1: case 5: case 6: m = Mat3<R>::from(V3_(R(1), R(2), R(-3)), live.b[md(how >> 4, NP)], V3_(ang, R(0.5), R(4))); break;
		case 3: PUT(m, Mat3<R>::from(m.x * R(3), m.y * R(0.5), m.z * R(7))); break;
		case 7: m = Mat3<R>::from(V3_(R(1), R(0), R(0)), m.y, m.x); break;
		case 4: m = Mat3<R>::from(m.x, -m.y, m.z); break;
		default:;
		}
		L3 x = L3::of(p);
		LM l = LM::of(m);
		LV<3> w; w[0] = x.dot(l.x); w[1] = x.dot(l.y); w[2] = x.dot(l.z);
		V3_ r = p;
		if (how & 1) r *= m; else r = p * m;
		if (!is("a vector by a matrix", r, w, 8 * eps * x.maxabs() * l.norm())) return false;
		p = of(r).mag() < 1e6L && of(r).mag() > 1e-6L ? r : p;
		return true;
	}
	bool matrix2(V2& p, R ang, i64 how)
	{
		ctr(MATRICES);
		Mat2<R> m; m.set(ang);
		switch ((how >> 1) & 7)
		{
		case 1: case 5: m = Mat2<R>::from(V2(R(1), R(2)), V2(ang, R(-3))); break;
		case 3: PUT(m, Mat2<R>::from(m.x * R(3), m.y * R(0.5))); break;                        // stretched along its columns
		case 7: m = Mat2<R>::from(V2(R(1), R(0)), m.x); break;                             // sheared, columns of length one
		case 4: m = Mat2<R>::from(m.x, -m.y); break;                                       // mirrored
		default:;
		}
		auto x = of(p), w = x;
		w[0] = x[0] * m.x.x + x[1] * m.x.y; w[1] = x[0] * m.y.x + x[1] * m.y.y;
		V2 r = p;
		if (how & 1) r *= m; else r = p * m;
		if (!is("a planar vector by a matrix", r, w, 8 * eps * x.mag() * (4 + fabsl((L)ang)))) return false;
		p = of(r).mag() < 1e6L && of(r).mag() > 1e-6L ? r : p;
		return true;
	}
	bool drop(i64 i, i64 how)
	{
		ctr(DROPS);
		int c = (int)md(how, 3);
		V3_ p = live.b[md(i, NP)], back;
		V2 d = c == 2 && (how & 4) ? p.toVec2() : p.toVec2(C[c]), e(p, C[c]);
		back = c == 2 && (how & 4) ? V3_(d) : V3_(d, C[c]);
		auto x = of(p), w = x;
		w[c] = 0;
		if (!is("a vector put back into space", back, w, 0)) return false;
		L s = fminl(fabsl(e.x - x[(c + 1) % 3]) + fabsl(e.y - x[(c + 2) % 3]), fabsl(e.y - x[(c + 1) % 3]) + fabsl(e.x - x[(c + 2) % 3]));
		if (s != 0) { rep_violation("drop", "a planar vector made from one in space is not its other two coordinates"); return false; }
		V4 h(p), g(p, d.x), t; t.set(p, d.y);
		if (h.w != 1 || g.w != d.x || t.w != d.y || h.toVec3() != p || g.toVec3() != p || t.toVec3() != p) { rep_violation("drop", "a homogeneous vector made from one in space differs from it"); return false; }
		V4 u = live.c[md(how >> 3, NP)], v = u, o = u;
		v += p; o -= p;
		auto y = of(u), ya = y, yb = y;
		for (int k = 0; k < 3; k++) { ya[k] += x[k]; yb[k] -= x[k]; }
		return is("a homogeneous vector moved by one in space", v, ya, eps * (x.mag() + y.mag())) && is("a homogeneous vector moved back by one in space", o, yb, eps * (x.mag() + y.mag()));
	}
	bool meet(const V2& from, const V2& to, const V2& a, const V2& b, bool parallel)
	{
		R s = R(7), t = R(7);
		int n = intersection(from, to, a, b, s, t);
		L fx_ = (L)to.x - from.x, fy = (L)to.y - from.y, ax = (L)b.x - a.x, ay = (L)b.y - a.y, det = fx_ * ay - fy * ax;
		L size = hypotl(fx_, fy) * hypotl(ax, ay), m = of(from).mag() + of(to).mag() + of(a).mag() + of(b).mag();
		evd(n);
		if (parallel)
		{
			ctr(PARALLEL);
			if (n != 0 || s != 0 || t != 0) { rep_violation("meet", "parallel segments meet"); return false; }
			return true;
		}
		if (!(fabsl(det) > 1e-2L * size) || size == 0 || !(fminl(hypotl(fx_, fy), hypotl(ax, ay)) > 1e-2L * m)) return true;
		ctr(MEETS);
		L ws = (((L)a.x - from.x) * ay - ((L)a.y - from.y) * ax) / det, wt = (((L)a.x - from.x) * fy - ((L)a.y - from.y) * fx_) / det;
		if (n != 1) { rep_violation("meet", "segments whose lines meet do not"); return false; }
		L tol = 16 * eps * m * m / fabsl(det);
		tol *= 1 + fabsl(ws) + fabsl(wt);
		return num("where along the first segment two lines meet", s, ws, tol) && num("where along the second segment two lines meet", t, wt, tol);
	}
	void run(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			g_sh->simtime_us += 16000;
			if (st.k == "type") continue;
			int i = (int)md(st.arg(1), NP), j = (int)md(st.arg(2), NP);
			i64 how = st.arg(4);
			R k = value(st.arg(5), st.arg(6));
			int dim = (int)md(st.arg(0), 3);
			shape((unsigned char)(dim * 16 + md(st.arg(3), 9)));
			if (st.k == "step") { if (!(dim == 0 ? common(live.a[i], live.a[j], st.arg(3), how, k) : dim == 1 ? common(live.b[i], live.b[j], st.arg(3), how, k) : common(live.c[i], live.c[j], st.arg(3), how, k))) return; }
			else if (st.k == "unit") { if (!(dim & 1 ? unit(live.a[i], how, k) && coords(live.a[i]) : unit(live.b[i], how, k) && coords(live.b[i]))) return; }
			else if (st.k == "coords") { if (!coords(live.a[i]) || !coords(live.b[i]) || !coords(live.b[i] * k) || !coords(V3_(k, live.b[i].y, -k)) || !coords(V2(k, -k))) return; }
			else if (st.k == "turn") { if (!(dim & 1 ? turn2(live.a[i], (R)fx(st.arg(6)), how) : turn3(live.b[i], (int)md(st.arg(3), 3), (R)fx(st.arg(6)), how))) return; }
			else if (st.k == "mirror") { if (!(dim & 1 ? mirror(live.a[i], how) : mirror(live.b[i], how))) return; }
			else if (st.k == "cross") { if (!(dim & 1 ? cross2(live.a[i], live.a[j], live.a[md(how, NP)]) : cross3(live.b[i], live.b[j], how))) return; }
			else if (st.k == "matrix") { if (!(dim & 1 ? matrix2(live.a[i], (R)fx(st.arg(6) >> 3), how) : matrix3(live.b[i], (int)md(st.arg(3), 3), (R)fx(st.arg(6) >> 3), how))) return; }
			else if (st.k == "drop") { if (!drop(i, how)) return; }
			else if (st.k == "meet")
			{
				V2 a = live.a[i], b = live.a[j], c = live.a[md(how, NP)], d((R)fx(st.arg(6)), k);
				static const R SIZE[] = { R(1), R(1), R(1.0 / 1024), R(4096) };
				for (V2* v : { &a, &b, &c, &d }) *v = *v * SIZE[md(how >> 5, 4)];
				static const R POW[] = { R(1), R(2), R(-1), R(-0.5) };
				V2 s((R)md(st.arg(6), 64), (R)(md(st.arg(6) >> 6, 64))), o((R)(md(how, 32)), (R)(md(how >> 2, 8)));
				if (md(st.arg(3), 3) == 0) { if (!meet(V2(R(0), R(0)), s, o, o + s * POW[md(how, 4)], true)) return; }
				else if (!meet(a, b, c, d, false)) return;
			}
			else if (st.k == "save") { ctr(SAVES); saved = live; }
			else if (st.k == "crash") { ctr(CRASHES); memset((void*)&live, 0xff, sizeof live); for (int x = 0; x < NP; x++) { for (int y = 0; y < 2; y++) live.a[x][C[y]] = saved.a[x].data()[y]; for (int y = 0; y < 3; y++) live.b[x][C[y]] = saved.b[x].data()[y]; live.c[x].set(saved.c[x].x, saved.c[x].y, saved.c[x].z, saved.c[x].w); } }
		}
	}
};
}
const char* const names_C30[] = { "moves", "multiples", "quotients", "turns", "mirrorings", "lengths set", "null vectors brought to a length", "cross products", "cross products with an axis", "products with a matrix", "products by element", "lesser or greater elements", "measures taken", "elements of equal size", "dimensions dropped and put back", "lines that meet", "parallel lines", "operands that are the result", "vectors grown very long", "vectors grown very short", "saves", "crashes", nullptr };
void gen_C30(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	int n = (int)r.range(20, tier ? 250 : 100);
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		const char* k = u < 0.42 ? "step" : u < 0.52 ? "unit" : u < 0.57 ? "coords" : u < 0.68 ? "turn" : u < 0.74 ? "mirror" : u < 0.81 ? "cross" : u < 0.86 ? "matrix" : u < 0.91 ? "drop" : u < 0.96 ? "meet" : u < 0.98 ? "save" : "crash";
		p.add(k, { r.range(0, 2), r.range(0, 3), r.range(0, 3), r.range(0, 8), r.range(0, 1023), r.range(0, 9), r.range(-20000, 20000) });
	}
}
void exec_C30(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<double>)->run(p); else (new World<float>)->run(p);
}
