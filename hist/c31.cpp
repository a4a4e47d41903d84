// C31: general square matrices kept as elements: every step of their algebra, by whichever equivalent call, against long double, through crashes and restores.
#include "h.h"
using namespace mathlib;
namespace {
enum { PRODUCTS, BESIDE, MULTIPLES, TRANSPOSES, ADJOINTS, MEASURES, INVERSES, SINGULAR, SCALES, TIDIED, MAPPED, STRIDED, PROJECTIVE, MIRRORING, STRETCHED, SHEARED, SAVES, CRASHES };
template <int N> struct LMat
{
	L c[N][N];   // columns
	LMat() { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) c[i][j] = i == j; }
	LMat operator*(const LMat& o) const { LMat r; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { r.c[i][j] = 0; for (int k = 0; k < N; k++) r.c[i][j] += c[k][j] * o.c[i][k]; } return r; }
	L mag() const { L m = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m = fmaxl(m, fabsl(c[i][j])); return m; }
	LMat transposed() const { LMat r; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r.c[i][j] = c[j][i]; return r; }
	// determinant without column i and row j, signed; n counts what is left
	static L minor(const L* m, int n, int i, int j)
	{
		L s[(N - 1) * (N - 1) + 1]; int k = 0;
		for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != i && b != j) s[k++] = m[a * n + b];
		return ((i + j) & 1 ? -1 : 1) * det(s, n - 1);
	}
	static L det(const L* m, int n)
	{
		if (n == 1) return m[0];
		L d = 0;
		for (int j = 0; j < n; j++) d += m[j] * minor(m, n, 0, j);
		return d;
	}
	L det() const { return det(&c[0][0], N); }
	LMat cofactors() const { LMat r; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r.c[i][j] = minor(&c[0][0], N, i, j); return r; }
};
template <class R> struct O2
{
	typedef Mat2<R> M; typedef Vec2<R> V; enum { N = 2 };
	static M make(const R* e, int how) { Vec2<R> x(e[0], e[1]), y(e[2], e[3]); if (how & 1) return M::from(x, y); if (how & 2) { M m; m.set(x, y); return m; } return M(x, y); }
	static V vec(const R* e) { return V(e[0], e[1]); }
	static void product(M& m, const M& o, int how) { switch (md(how, 3)) { case 0: PUT(m, m * o); break; case 1: m *= o; break; default: { M d; M::multiply(d, m, o); m = d; } } }
	static void inverse(M& m, int) { PUT(m, m.inversed()); }
	static bool adjoint(M& m, int how) { PUT(m, (how & 1) ? m.adjoint() : m.cofactors()); return true; }
	static bool scale(M& m, const V& k, int how) { if (how & 1) m.scale(k); else PUT(m, m.scaled(k)); return true; }
	static const char* name() { return "2x2"; }
};
template <class R> struct O3
{
	typedef Mat3<R> M; typedef Vec3<R> V; enum { N = 3 };
	static M make(const R* e, int how) { V x(e[0], e[1], e[2]), y(e[3], e[4], e[5]), z(e[6], e[7], e[8]); if (how & 1) return M::from(x, y, z); if (how & 2) { M m; m.set(x, y, z); return m; } return M(x, y, z); }
	static V vec(const R* e) { return V(e[0], e[1], e[2]); }
	static void product(M& m, const M& o, int how)
	{
		switch (md(how, 7))
		{
		case 0: PUT(m, m * o); break; case 1: m *= o; break; case 2: { M d; M::multiply(d, m, o); m = d; break; }
		case 3: m.rotatePre(o); break; case 4: PUT(m, m.rotatedPre(o)); break; case 5: { M k = o; k.rotate(m); m = k; break; } default: PUT(m, o.rotated(m));
		}
	}
	static void inverse(M& m, int how) { if (how & 1) m.invert(); else PUT(m, m.inversed()); }
	static bool adjoint(M& m, int how) { PUT(m, (how & 1) ? m.adjoint() : m.cofactors()); return true; }
	static bool scale(M& m, const V& k, int how) { if (how & 1) m.scale(k); else PUT(m, m.scaled(k)); return true; }
	static const char* name() { return "3x3"; }
};
template <class R> struct O4
{
	typedef Mat4<R> M; typedef Vec4<R> V; enum { N = 4 };
	static M make(const R* e, int how)
	{
		V x(e[0], e[1], e[2], e[3]), y(e[4], e[5], e[6], e[7]), z(e[8], e[9], e[10], e[11]), t(e[12], e[13], e[14], e[15]);
		if (how & 1) return M::from(x, y, z, t);
		if (how & 2) { M m; m.set(x, y, z, t); return m; }
		return M(x, y, z, t);
	}
	static V vec(const R* e) { return V(e[0], e[1], e[2], e[3]); }
	static void product(M& m, const M& o, int how)
	{
		switch (md(how, 6))
		{
		case 0: PUT(m, m * o); break; case 1: { M d; M::multiply(d, m, o); m = d; break; }
		case 2: m.transformPre(o); break; case 3: PUT(m, m.transformedPre(o)); break; case 4: { M k = o; k.transform(m); m = k; break; } default: PUT(m, o.transformed(m));
		}
	}
	static void inverse(M& m, int how) { if (how & 1) m.invert(); else PUT(m, m.inversed()); }
	static bool adjoint(M&, int) { return false; }
	static bool scale(M&, const V&, int) { return false; }
	static const char* name() { return "4x4"; }
};
template <class R, class O> struct World
{
	typedef typename O::M M; typedef typename O::V V;
	enum { N = O::N, NM = 4, NV = 80 };
	M live[NM], saved[NM];
	L eps = epsOf<R>();
	World() { for (auto& m : live) m.setIdentity(); for (auto& m : saved) m.setIdentity(); }
	static LMat<N> of(const M& m) { LMat<N> r; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r.c[i][j] = m.data()[i * N + j]; return r; }
	bool is(const char* what, const M& m, const LMat<N>& want, L tol)
	{
		auto g = of(m);
		for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
		{
			evd(g.c[i][j]);
			if (!(fabsl(g.c[i][j] - want.c[i][j]) <= tol)) { rep_violation("algebra", "column %d row %d of %s (%s) is %.12Lg, not %.12Lg (tolerance %.3Lg)", i, j, what, O::name(), g.c[i][j], want.c[i][j], tol); return false; }
		}
		return true;
	}
	bool num(const char* what, L got, L want, L tol)
	{
		evd(got);
		if (!(fabsl(got - want) <= tol)) { rep_violation("algebra", "%s of a %s matrix is %.12Lg, not %.12Lg (tolerance %.3Lg)", what, O::name(), got, want, tol); return false; }
		return true;
	}
	// the steps go on from matrices of a size that neither overflows nor vanishes
	void keep(M& m) { auto a = of(m); L g = a.mag(); bool ok = g <= 1e3L && g >= 1e-3L; for (int i = 0; i < N * N; i++) ok = ok && std::isfinite(m.data()[i]); if (!ok) m.setIdentity(); }
	static L power(L b, int n) { L p = 1; for (int i = 0; i < n; i++) p *= b; return p; }
	static L fact() { return N == 2 ? 2 : N == 3 ? 6 : 24; }
	R element(i64 kind, u64 h)
	{
		switch (md(kind, 5))
		{
		case 0: return (R)((i64)(h % 9) - 4);
		case 1: return (R)((i64)(h % 3) - 1);
		case 2: return (R)(((L)(h % 200001) - 100000) / 7000);
		default: return (R)(((L)(h % 200001) - 100000) / 300000);
		}
	}
	void fill(M& m, const Step& st)
	{
		int kind = (int)md(st.arg(2), 12);
		R e[N * N];
		for (int i = 0; i < N * N; i++) e[i] = element(st.arg(3), mix64(st.arg(4), i + 1));
		if (kind == 1 || kind == 2)
		{
			// beside the identity, by much or little; or a mirroring
			ctr(kind == 1 ? BESIDE : MIRRORING);
			R mag = (R)ldexpl(1, -(int)md(st.arg(5), sizeof(R) == 4 ? 27 : 56));
			for (int i = 0; i < N * N; i++) e[i] = (kind == 1 ? ((u64)st.arg(6) >> i & 1) * e[i] * mag : R(0)) + R(i % (N + 1) == 0 ? (kind == 2 && (st.arg(6) >> (i / N) & 1) ? -1 : 1) : 0);
		}
		else if (kind == 3) for (int i = 0; i < N; i++) e[(N - 1) * N + i] = e[i] * R(2);   // two columns along each other
		else if (kind == 4) for (int i = 0; i < N; i++) e[i * N + N - 1] = R(i == N - 1);   // bottom row 0 0 0 1
		else if (kind == 5) for (int i = 0; i < N * N; i++) if ((i / N + i % N) != N - 1) e[i] = 0;   // permutes coordinates
		else if (kind == 6)
		{
			// a rotation, blurred
			L ang = (L)(st.arg(4) % 6283) / 1000;
			LM r = LM::rot(N == 2 ? L3(0, 0, 1) : L3(e[0] + R(0.125), e[1], e[2]), ang);
			const L3* c[3] = { &r.x, &r.y, &r.z };
			R mag = (R)ldexpl(1, -7 - (int)md(st.arg(5), sizeof(R) == 4 ? 20 : 49));
			for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
			{
				L b = i < 3 && j < 3 ? (j == 0 ? c[i]->x : j == 1 ? c[i]->y : c[i]->z) : i == j;
				e[i * N + j] = (R)(b + (i < 3 && j < 3 && ((u64)st.arg(6) >> (i * 4 + j) & 1) ? e[i * N + j] * mag / 8 : 0));
			}
		}
		else if (kind == 9 || kind == 10)
		{
			// a rotation whose columns are stretched, or columns of length one that are not perpendicular
			ctr(kind == 9 ? STRETCHED : SHEARED);
			LM r = LM::rot(N == 2 ? L3(0, 0, 1) : L3(e[0] + R(0.125), e[1], e[2]), (L)(st.arg(4) % 6283) / 1000);
			const L3* c[3] = { &r.x, &r.y, &r.z };
			for (int i = 0; i < N; i++)
			{
				L k = 0;
				if (kind == 9) k = (L)(1 + md(st.arg(6) >> (2 * i), 16)) / 4;
				else { for (int j = 0; j < N; j++) k += (L)e[i * N + j] * e[i * N + j]; k = k > 0 ? 1 / sqrtl(k) : 0; }
				for (int j = 0; j < N; j++) e[i * N + j] = (R)(k * (kind == 9 ? (i < 3 && j < 3 ? (j == 0 ? c[i]->x : j == 1 ? c[i]->y : c[i]->z) : (L)(i == j)) : (L)e[i * N + j]));
			}
		}
		if (N == 4 && kind != 4 && kind != 6 && kind != 9) ctr(PROJECTIVE);
		m = O::make(e, (int)md(st.arg(7), 3));
		LMat<N> w;
		for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) w.c[i][j] = e[i * N + j];
		is("a matrix made of elements", m, w, 0);
	}
	bool product(M& m, const M& o, int how)
	{
		ctr(PRODUCTS);
		auto a = of(m), b = of(o);
		O::product(m, o, how);
		if (!is("a product", m, a * b, 64 * eps * fmaxl(1, a.mag()) * fmaxl(1, b.mag()))) return false;
		keep(m);
		return true;
	}
	bool multiple(M& m, int how, R k)
	{
		ctr(MULTIPLES);
		auto w = of(m);
		L g = w.mag();
		switch (md(how, 5))
		{
		case 0: m *= k; for (auto& c : w.c) for (auto& e : c) e *= k; break;
		case 1: PUT(m, m * k); for (auto& c : w.c) for (auto& e : c) e *= k; break;
		case 2: if (k == 0) return true; m /= k; for (auto& c : w.c) for (auto& e : c) e /= k; g /= k * k; break;
		case 3: if (k == 0) return true; PUT(m, m / k); for (auto& c : w.c) for (auto& e : c) e /= k; g /= k * k; break;
		default: PUT(m, -m); for (auto& c : w.c) for (auto& e : c) e = -e;
		}
		if (!is("a multiple", m, w, 4 * eps * g * fmaxl(1, fabsl((L)k)))) return false;
		keep(m);
		return true;
	}
	bool transpose(M& m, int how) { ctr(TRANSPOSES); auto w = of(m).transposed(); if (how & 1) m.transpose(); else PUT(m, m.transposed()); return is("a transposed matrix", m, w, 0); }
	bool adjoint(M& m, int how)
	{
		auto a = of(m), w = a.cofactors();
		if (how & 1) w = w.transposed();
		if (!O::adjoint(m, how)) return true;
		ctr(ADJOINTS);
		if (!is((how & 1) ? "an adjoint" : "cofactors", m, w, 8 * eps * power(a.mag(), N - 1))) return false;
		keep(m);
		return true;
	}
	bool measures(const M& m)
	{
		ctr(MEASURES);
		auto a = of(m);
		L t = 0;
		for (int i = 0; i < N; i++) t += a.c[i][i];
		return num("the trace", m.trace(), t, 4 * eps * a.mag()) && num("the determinant", m.determinant(), a.det(), 8 * fact() * eps * power(a.mag(), N));
	}
	bool inverse(M& m, int how)
	{
		auto a = of(m), cof = a.cofactors();
		L d = a.det(), full = power(a.mag(), N);
		bool whole = true;
		for (auto& c : a.c) for (auto& e : c) whole = whole && e == floorl(e) && fabsl(e) < 64;
		if (d == 0 && whole)
		{
			ctr(SINGULAR);
			O::inverse(m, how);
			LMat<N> z; for (auto& c : z.c) for (auto& e : c) e = 0;
			if (!is("the inverse of a singular matrix", m, z, 0)) return false;
			m.setIdentity();
			return true;
		}
		L dd = 8 * fact() * eps * full / fmaxl(fabsl(d), 1e-4000L);
		if (!(dd < 0.05L)) return true;
		ctr(INVERSES);
		auto w = cof.transposed();
		for (auto& c : w.c) for (auto& e : c) e /= d;
		L tol = 16 * fact() * eps * power(a.mag(), N - 1) / fabsl(d) + 2 * dd * w.mag();
		O::inverse(m, how);
		if (!is("an inverse", m, w, tol)) return false;
		keep(m);
		return true;
	}
	bool scale(M& m, const R* k, int how)
	{
		auto w = of(m);
		L g = 0;
		for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { w.c[i][j] *= k[i]; g = fmaxl(g, fabsl(w.c[i][j])); }
		if (!O::scale(m, O::vec(k), how)) return true;
		ctr(SCALES);
		if (!is("a matrix with scaled columns", m, w, 2 * eps * g)) return false;
		keep(m);
		return true;
	}
	// a nearly orthonormal matrix becomes a rotation beside it
	bool tidy(M& m)
	{
		auto a = of(m);
		auto defect = [](const LMat<N>& x) { auto t = x.transposed() * x; L d = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) d = fmaxl(d, fabsl(t.c[i][j] - (i == j))); return d; };
		L d = defect(a);
		if (!(d < 0.02L) || !(a.det() > 0)) return true;
		if (N == 4) for (int i = 0; i < 4; i++) if (a.c[N - 1][i] != (i == N - 1) || a.c[i][N - 1] != (i == N - 1)) return true;
		ctr(TIDIED);
		m.orthonormalise();
		auto b = of(m);
		L f = defect(b);
		if (!num("the departure from a rotation of an orthonormalised", f, 0, 32 * eps)) return false;
		return is("an orthonormalised matrix", m, a, 4 * d + 64 * eps);
	}
	bool map(const M& m, const Step& st)
	{
		ctr(MAPPED);
		auto a = of(m);
		int how = (int)md(st.arg(2), 4), n = md(st.arg(6) >> 20, 16) ? 1 + (int)md(st.arg(3), 8) : (int)md(st.arg(6) >> 4, NV);
		static const int gap[] = { 0, 1, 2, 5 };
		size_t ss = N + gap[md(st.arg(4), 4)], ds = N + gap[md(st.arg(5), 4)];
		R src[NV * (N + 5) + 1], dst[NV * (N + 5) + 2];
		if (how != 3) ss = ds = N;
		else ctr(STRIDED);
		size_t room = n * ds + 2;
		for (size_t i = 0; i < n * ss; i++) src[i] = R(1e9);
		for (size_t i = 0; i < room; i++) dst[i] = R(-77);
		R* to = dst + 1;
		for (int i = 0; i < n; i++) for (int j = 0; j < N; j++) src[i * ss + j] = element(2 + (i & 1), mix64(st.arg(6), i * 8 + j));
		V* d = (V*)to; const V* s = (const V*)src;
		switch (how)
		{
		case 0: for (int i = 0; i < n; i++) d[i] = m * s[i]; break;
		case 1: for (int i = 0; i < n; i++) m.transform(d[i], s[i]); break;
		case 2: m.transform(d, s, (size_t)n); break;
		default: m.transform(d, s, (size_t)n, ds * sizeof(R), ss * sizeof(R));
		}
		for (int i = 0; i < n; i++)
			for (int j = 0; j < N; j++)
			{
				L w = 0, g = 0;
				for (int k = 0; k < N; k++) { w += a.c[k][j] * src[i * ss + k]; g += fabsl(a.c[k][j] * src[i * ss + k]); }
				if (!num("an element of a vector mapped by a matrix", to[i * ds + j], w, 8 * eps * g)) return false;
				to[i * ds + j] = R(-77);
			}
		for (size_t i = 0; i < room; i++) if (dst[i] != R(-77)) { rep_violation("stride", "mapping %d vectors by a %s matrix with strides of %zu and %zu elements wrote outside them", n, O::name(), ds, ss); return false; }
		return true;
	}
	void run(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			g_sh->simtime_us += 16000;
			if (st.k == "type") continue;
			M& m = live[md(st.arg(0), NM)];
			int how = (int)md(st.arg(2), 1024);
			shape((unsigned char)md(st.arg(2), 9));
			if (st.k == "fill") fill(m, st);
			else if (st.k == "mul") 
			{
				const M& o = live[md(st.arg(1), NM)];
				if (&o == &m) { M k = o; if (!product(m, k, how)) return; }
				else { auto b = of(o); if (!product(m, o, how) || !is("an operand after a product", o, b, 0)) return; }
			}
			else if (st.k == "tidy") { if (!tidy(m)) return; }
			else if (st.k == "multiple") { static const R K[] = { R(1), R(0), R(-1), R(2) }; if (!multiple(m, how, md(st.arg(3), 8) < 4 ? K[md(st.arg(3), 8)] : element(2, (u64)st.arg(4)))) return; }
			else if (st.k == "transpose") { if (!transpose(m, how)) return; }
			else if (st.k == "adjoint") { if (!adjoint(m, how)) return; }
			else if (st.k == "measure") { if (!measures(m)) return; }
			else if (st.k == "inverse") { if (!inverse(m, how)) return; }
			else if (st.k == "scale") { R k[4]; for (int i = 0; i < 4; i++) k[i] = element(st.arg(3), mix64(st.arg(4), i)); if (st.arg(5) & 1) k[1] = k[2] = k[3] = k[0]; if (!scale(m, k, how)) return; }
			else if (st.k == "map") { if (!map(m, st)) return; }
			else if (st.k == "save") { ctr(SAVES); for (int i = 0; i < NM; i++) saved[i] = live[i]; }
			else if (st.k == "crash")
			{
				// the process is lost with what it held; the elements that were saved are read back
				ctr(CRASHES);
				for (int i = 0; i < NM; i++)
				{
					R e[N * N];
					memcpy(e, saved[i].data(), sizeof e);
					live[i].~M(); memset((void*)&live[i], 0xa5, sizeof(M)); new ((void*)&live[i]) M;
					if (how & 1) { for (int j = 0; j < N * N; j++) live[i].data()[j] = e[j]; live[i].optimize(); } else live[i] = O::make(e, how >> 1);
					if (!is("a restored matrix", live[i], of(saved[i]), 0)) return;
				}
			}
		}
	}
};
}
const char* const names_C31[] = { "products", "matrices beside the identity", "multiples", "transpositions", "adjoints and cofactors", "traces and determinants", "inverses", "singular matrices inverted", "columns scaled", "matrices made orthonormal", "vectors mapped", "vectors mapped with strides", "projective matrices", "mirrorings", "stretched rotations", "columns of length one", "saves", "crashes", nullptr };
void gen_C31(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 5) });
	i64 style = r.range(0, 4);
	auto fill = [&](i64 s) { p.add("fill", { s, 0, r.range(0, 11), r.chance(0.7) ? style : r.range(0, 4), r.range(0, 1 << 30), r.range(0, 60), r.range(0, 65535), r.range(0, 2) }); };
	for (int i = 0; i < 4; i++) fill(i);
	int n = (int)r.range(15, tier ? 150 : 60);
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		i64 s = r.range(0, 3);
		if (u < 0.2) fill(s);
		else
		{
			const char* k = u < 0.4 ? "mul" : u < 0.48 ? "multiple" : u < 0.54 ? "transpose" : u < 0.6 ? "adjoint" : u < 0.68 ? "measure" : u < 0.8 ? "inverse" : u < 0.83 ? "scale" : u < 0.87 ? "tidy" : u < 0.93 ? "map" : u < 0.97 ? "save" : "crash";
			p.add(k, { s, r.range(0, 3), r.range(0, 1023), r.range(0, 7), r.range(0, 1 << 30), r.range(0, 7), r.range(0, 1 << 30) });
		}
	}
}
void exec_C31(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	switch (md(p.steps[0].arg(0), 6))
	{
	case 0: (new World<float, O2<float>>)->run(p); break;
	case 1: (new World<double, O2<double>>)->run(p); break;
	case 2: (new World<float, O3<float>>)->run(p); break;
	case 3: (new World<double, O3<double>>)->run(p); break;
	case 4: (new World<float, O4<float>>)->run(p); break;
	default: (new World<double, O4<double>>)->run(p);
	}
}
