// C20: general quaternions kept as elements: every step of their algebra and every conversion against long double, through crashes and restores.
#include "h.h"
using namespace mathlib;
namespace {
enum { PRODUCTS, QUOTIENTS, CONJUGATES, NORMALISED, NULLS, VECTORS, TURNED, MATRICES, BACK, HALFTURNS, AXES, EXPS, LOGS, CASTS, SAVES, CRASHES };
struct LQ
{
	L x, y, z, w;
	LQ(L a = 0, L b = 0, L c = 0, L d = 1) : x(a), y(b), z(c), w(d) {}
	template <class R> static LQ of(const Quat<R>& q) { return LQ(q.x, q.y, q.z, q.w); }
	L3 v() const { return L3(x, y, z); }
	LQ operator*(const LQ& o) const { L3 a = v(), b = o.v(), c = b * w + a * o.w + a.cross(b); return LQ(c.x, c.y, c.z, w * o.w - a.dot(b)); }
	LQ conj() const { return LQ(-x, -y, -z, w); }
	LQ operator*(L k) const { return LQ(x * k, y * k, z * k, w * k); }
	L n2() const { return x * x + y * y + z * z + w * w; }
	L len() const { return sqrtl(n2()); }
	LM mat() const { auto col = [&](const L3& e) { LQ r = *this * LQ(e.x, e.y, e.z, 0) * conj(); return r.v(); }; return LM(col(L3(1, 0, 0)), col(L3(0, 1, 0)), col(L3(0, 0, 1))); }
};
template <class R> struct World
{
	typedef Quat<R> Q; typedef Vec3<R> V;
	enum { NQ = 5 };
	Q live[NQ], saved[NQ];
	L eps = epsOf<R>();
	World() { for (auto& q : live) q.setIdentity(); for (auto& q : saved) q.setIdentity(); }
	bool is(const char* what, const Q& q, const LQ& w, L tol)
	{
		LQ g = LQ::of(q);
		evd(g.x); evd(g.y); evd(g.z); evd(g.w);
		L d = fmaxl(fmaxl(fabsl(g.x - w.x), fabsl(g.y - w.y)), fmaxl(fabsl(g.z - w.z), fabsl(g.w - w.w)));
		if (!(d <= tol)) { rep_violation("algebra", "%s is (%.9Lg %.9Lg %.9Lg %.9Lg), not (%.9Lg %.9Lg %.9Lg %.9Lg) (off by %.3Lg, tolerance %.3Lg)", what, g.x, g.y, g.z, g.w, w.x, w.y, w.z, w.w, d, tol); return false; }
		return true;
	}
	bool vec(const char* what, const V& v, const L3& w, L tol)
	{
		L3 g = L3::of(v);
		ev3(g);
		L d = (g - w).maxabs();
		if (!(d <= tol)) { rep_violation("algebra", "%s is (%.9Lg %.9Lg %.9Lg), not (%.9Lg %.9Lg %.9Lg) (off by %.3Lg, tolerance %.3Lg)", what, g.x, g.y, g.z, w.x, w.y, w.z, d, tol); return false; }
		return true;
	}
	bool keep(Q& q) { L n = LQ::of(q).len(); if (!(n <= 1e3L && n >= 1e-3L)) { q.setIdentity(); return is("the identity", q, LQ(), 0); } return true; }
	static bool unit(const Q& q) { return fabsl(LQ::of(q).n2() - 1) <= 16 * epsOf<R>(); }
	R element(i64 kind, u64 h)
	{
		switch (md(kind, 5))
		{
		case 0: return (R)((i64)(h % 9) - 4);
		case 1: return (R)((i64)(h % 3) - 1);
		case 2: return (R)(((L)(h % 200001) - 100000) / 7000);
		case 3: return (R)(((L)(h % 200001) - 100000) / 300000);
		default: return (R)ldexpl((L)((i64)(h % 2001) - 1000) / 1000, -(int)(h >> 20) % 9);
		}
	}
	bool fill(Q& q, const Step& st)
	{
		R e[4];
		for (int i = 0; i < 4; i++) e[i] = element(st.arg(3), mix64(st.arg(4), i + 1));
		int kind = (int)md(st.arg(2), 8);
		R tiny = (R)ldexpl(1, -(int)md(st.arg(5), sizeof(R) == 4 ? 26 : 55));
		if (kind == 1) for (int i = 0; i < 4; i++) e[i] = R(i == (int)md(st.arg(5), 4) ? (st.arg(6) & 1 ? -1 : 1) : 0);             // one of the basis
		else if (kind == 2) { for (int i = 0; i < 3; i++) e[i] *= tiny; e[3] = st.arg(6) & 1 ? R(-1) : R(1); }                      // beside the identity or its twin
		else if (kind == 3) { ctr(HALFTURNS); e[3] *= tiny; }                                                                       // beside a half turn
		else if (kind == 4) { ctr(HALFTURNS); e[3] *= tiny; e[md(st.arg(6), 3)] *= tiny; e[md(st.arg(6) >> 2, 3)] *= tiny; }        // beside a half turn about a coordinate axis
		else if (kind == 5) { R a = element(3, mix64(st.arg(6), 9)); for (auto& v : e) v = (v >= 0 ? a : -a); }                      // thirds of a turn
		LQ w(e[0], e[1], e[2], e[3]);
		bool norm = st.arg(7) & 1;
		L n = w.len();
		if (n == 0) ctr(NULLS);
		if (norm && n > 0 && n < 1e-6L) norm = false;
		switch (md(st.arg(7) >> 1, 4))
		{
		case 0: q = Q(e[0], e[1], e[2], e[3], norm); break;
		case 1: q = Q(e[0], e[1], e[2], e[3], false); if (norm) q.normalize(); break;
		case 2: for (int i = 0; i < 4; i++) q.data()[i] = e[i]; if (norm) q.normalize(); break;
		default: if (norm) q = Q(e[0], e[1], e[2], e[3]); else { q.x = e[0]; q.y = e[1]; q.z = e[2]; q.w = e[3]; }
		}
		if (norm) { ctr(NORMALISED); w = n > 0 ? w * (1 / n) : LQ(); }
		if (!is("a quaternion made of elements", q, w, norm && n > 0 ? 8 * eps : 0)) return false;
		return keep(q);
	}
	bool product(Q& q, const Q& o, const Q& same)
	{
		ctr(PRODUCTS);
		LQ a = LQ::of(q), b = LQ::of(o);
		Q r = q * o;
		if (!is("a product", r, a * b, 8 * eps * a.len() * b.len()) || !is("the left operand of a product", q, a, 0) || !is("the right operand of a product", o, b, 0)) return false;
		(void)same;
		q = r;
		return keep(q);
	}
	bool quotient(Q& q, const Q& o)
	{
		LQ a = LQ::of(q), b = LQ::of(o);
		if (!(b.n2() > 0)) return true;
		ctr(QUOTIENTS);
		Q r = q / o;
		if (!is("a quotient", r, a * b.conj() * (1 / b.n2()), 24 * eps * a.len() / b.len())) return false;
		if (!is("a quotient times its divisor", r * o, a, 48 * eps * a.len())) return false;
		if (!is("the divisor", o, b, 0)) return false;
		q = r;
		return keep(q);
	}
	bool conjugate(Q& q, int how)
	{
		ctr(CONJUGATES);
		LQ a = LQ::of(q);
		if (how & 1) { PUT(q, q.inverse()); return is("a conjugate", q, a.conj(), 0); }
		PUT(q, -q);
		return is("a negated quaternion", q, a * -1, 0);
	}
	bool normalise(Q& q)
	{
		ctr(NORMALISED);
		LQ a = LQ::of(q);
		L n = a.len();
		if (n > 0 && n < 1e-6L) return true;
		Q& back = q.normalize();
		if (&back != &q) { rep_violation("algebra", "normalize() does not return its own object"); return false; }
		return is("a normalised quaternion", q, n > 0 ? a * (1 / n) : LQ(), n > 0 ? 8 * eps : 0);
	}
	bool vectors(const Q& q, const Step& st)
	{
		LQ a = LQ::of(q);
		V v(element(st.arg(3), mix64(st.arg(4), 1)), element(st.arg(3), mix64(st.arg(4), 2)), element(st.arg(3), mix64(st.arg(4), 3)));
		L3 b = L3::of(v);
		ctr(VECTORS);
		if (!vec("the vector part of the product with a vector", q * v, (a * LQ(b.x, b.y, b.z, 0)).v(), 8 * eps * a.len() * b.len())) return false;
		if (!unit(q)) return true;
		ctr(TURNED);
		LM m = a.mat();
		if (!vec("a vector turned", q.rotated(v), m * b, 64 * eps * b.len())) return false;
		const Coord c[3] = { Coord::X, Coord::Y, Coord::Z };
		const L3* col[3] = { &m.x, &m.y, &m.z };
		for (int i = 0; i < 3; i++) if (!vec("a coordinate axis turned", q.rotated(c[i]), *col[i], 64 * eps)) return false;
		return is("the quaternion that turned", q, a, 0);
	}
	// to a matrix and back: the same orientation
	bool matrix(Q& q, int how)
	{
		if (!unit(q)) return true;
		ctr(MATRICES);
		LQ a = LQ::of(q);
		LM w = a.mat();
		Mat3<R> m3; Mat34<R> m34; Mat4<R> m4;
		int kind = (int)md(how, 3);
		if (kind == 0) { if (how & 8) m3.set(q); else m3 = Mat3<R>::from(q); }
		else if (kind == 1) { if (how & 8) m34.set(q); else m34 = Mat34<R>::from(q); m3 = m34.rs; }
		else { if (how & 8) m4.set(q); else m4 = Mat4<R>::from(q); m3.set(m4.x.toVec3(), m4.y.toVec3(), m4.z.toVec3()); }
		if (!vec("the x column of the matrix of a quaternion", m3.x, w.x, 32 * eps) || !vec("the y column of the matrix of a quaternion", m3.y, w.y, 32 * eps) || !vec("the z column of the matrix of a quaternion", m3.z, w.z, 32 * eps)) return false;
		ctr(BACK);
		Q r;
		if (kind == 2) { if (how & 16) r.set(m4); else r = Q::from(m4); }
		else if (how & 16) r.set(m3); else r = Q::from(m3);
		LQ g = LQ::of(r);
		bool twin = g.x * a.x + g.y * a.y + g.z * a.z + g.w * a.w < 0;
		if (!is("a quaternion of a matrix", r, twin ? a * -1 : a, 64 * eps)) return false;
		if (!unit(r)) { rep_violation("algebra", "a quaternion of a matrix has length %.12Lg", LQ::of(r).len()); return false; }
		q = r;
		return true;
	}
	bool axis(Q& q, const Step& st)
	{
		V v(element(st.arg(3), mix64(st.arg(4), 1)), element(st.arg(3), mix64(st.arg(4), 2)), element(st.arg(3), mix64(st.arg(4), 3)));
		R angle = (R)(md(st.arg(5), 8) == 0 ? 0 : md(st.arg(5), 8) == 1 ? 3.14159265358979323846L * (md(st.arg(6), 9) - 4) / 2 : md(st.arg(5), 8) == 2 ? ldexpl(1, -(int)md(st.arg(6), sizeof(R) == 4 ? 26 : 55)) : (L)(md(st.arg(6), 16001) - 8000) / 500);
		L3 b = L3::of(v);
		L n = b.len();
		if (n > 0 && n < 1e-6L) return true;
		ctr(AXES);
		if (st.arg(2) & 1) q.set(v, angle); else q = Q::from(v, angle);
		L3 u = b.unit() * sinl((L)angle / 2);
		return is("a quaternion of an axis and an angle", q, n > 0 ? LQ(u.x, u.y, u.z, cosl((L)angle / 2)) : LQ(), 8 * eps);
	}
	bool explog(Q& q, const Step& st)
	{
		R k = md(st.arg(5), 3) ? R(1) : (R)ldexpl(1, -(int)md(st.arg(6), sizeof(R) == 4 ? 24 : 50));
		V v(element(3, mix64(st.arg(4), 1)) * k * R(6), element(3, mix64(st.arg(4), 2)) * k * R(6), element(3, mix64(st.arg(4), 3)) * k * R(6));
		if (md(st.arg(5) >> 2, 8) == 0) v = V(0, 0, 0);
		L3 b = L3::of(v);
		L a = b.len();
		ctr(EXPS);
		Q r = Q::exp(Q(v.x, v.y, v.z, R(0), false));
		L3 s = b.unit() * sinl(a);
		if (!is("the exponential of a pure quaternion", r, LQ(s.x, s.y, s.z, cosl(a)), eps * (8 + 2 * a))) return false;
		if (a < 3.1L && a > 0)
		{
			ctr(LOGS);
			Q l = Q::log(r);
			if (!is("the logarithm of an exponential", l, LQ(b.x, b.y, b.z, 0), eps * (16 + 8 * a) * fmaxl(1, a / fmaxl(fabsl(sinl(a)), 1e-9L)) * fminl(1, a * 4))) return false;
		}
		q = r;
		return true;
	}
	bool cast(Q& q)
	{
		ctr(CASTS);
		LQ a = LQ::of(q);
		auto d = q.template cast<double>();
		if (!(d.x == (double)q.x && d.y == (double)q.y && d.z == (double)q.z && d.w == (double)q.w)) { rep_violation("algebra", "a cast to double changed an element"); return false; }
		auto f = q.template cast<float>();
		if (!(f.x == (float)q.x && f.y == (float)q.y && f.z == (float)q.z && f.w == (float)q.w)) { rep_violation("algebra", "a cast to float changed more than the precision"); return false; }
		q = d.template cast<R>();
		return is("a quaternion cast and cast back", q, a, 0);
	}
	void run(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			g_sh->simtime_us += 16000;
			if (st.k == "type") continue;
			Q& q = live[md(st.arg(0), NQ)];
			const Q& o = live[md(st.arg(1), NQ)];
			int how = (int)md(st.arg(2), 1024);
			shape((unsigned char)md(st.arg(2), 8));
			bool ok = true;
			if (st.k == "fill") ok = fill(q, st);
			else if (st.k == "mul") { if (&o == &q) { Q k = q; ok = product(q, k, o); } else ok = product(q, o, o); }
			else if (st.k == "div") { Q k = o; ok = quotient(q, k); }
			else if (st.k == "conj") ok = conjugate(q, how);
			else if (st.k == "norm") ok = normalise(q);
			else if (st.k == "vec") ok = vectors(q, st);
			else if (st.k == "mat") ok = matrix(q, how);
			else if (st.k == "axis") ok = axis(q, st);
			else if (st.k == "exp") ok = explog(q, st);
			else if (st.k == "cast") ok = cast(q);
			else if (st.k == "save") { ctr(SAVES); for (int i = 0; i < NQ; i++) saved[i] = how & 1 ? live[i] : Q::from(live[i]); }
			else if (st.k == "crash")
			{
				// the process is lost with what it held; the elements that were saved are read back
				ctr(CRASHES);
				for (int i = 0; i < NQ && ok; i++)
				{
					R e[4];
					memcpy(e, ((const Q&)saved[i]).data(), sizeof e);
					memset((void*)&live[i], 0xa5, sizeof(Q));
					if (how & 1) memcpy(live[i].data(), e, sizeof e); else if (how & 2) live[i].set(Q(e[0], e[1], e[2], e[3], false)); else live[i] = Q(e[0], e[1], e[2], e[3], false);
					ok = is("a restored quaternion", live[i], LQ::of(saved[i]), 0);
					if (ok && (!(live[i] == saved[i]) || live[i] != saved[i])) { rep_violation("algebra", "a restored quaternion does not equal the saved one"); ok = false; }
				}
			}
			if (!ok) return;
		}
	}
};
}
const char* const names_C20[] = { "products", "quotients", "conjugates and negations", "normalised", "null quaternions", "products with vectors", "vectors turned", "turned into matrices", "made from matrices", "beside half turns", "made from axes and angles", "exponentials", "logarithms", "casts", "saves", "crashes", nullptr };
void gen_C20(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	i64 style = r.range(0, 4);
	bool units = r.chance(0.6);
	auto fill = [&](i64 s) { p.add("fill", { s, 0, r.range(0, 7), r.chance(0.7) ? style : r.range(0, 4), r.range(0, 1 << 30), r.range(0, 60), r.range(0, 15), r.range(0, 3) * 2 + (r.chance(units ? 0.9 : 0.2) ? 1 : 0) }); };
	for (int i = 0; i < 5; i++) fill(i);
	int n = (int)r.range(15, tier ? 160 : 70);
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		i64 s = r.range(0, 4);
		if (u < 0.22) fill(s);
		else
		{
			const char* k = u < 0.36 ? "mul" : u < 0.46 ? "div" : u < 0.52 ? "conj" : u < 0.58 ? "norm" : u < 0.66 ? "vec" : u < 0.80 ? "mat" : u < 0.86 ? "axis" : u < 0.91 ? "exp" : u < 0.93 ? "cast" : u < 0.97 ? "save" : "crash";
			p.add(k, { s, r.range(0, 4), r.range(0, 1023), r.range(0, 4), r.range(0, 1 << 30), r.range(0, 31), r.range(0, 1 << 20) });
		}
	}
}
void exec_C20(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (md(p.steps[0].arg(0), 2)) (new World<double>)->run(p); else (new World<float>)->run(p);
}
