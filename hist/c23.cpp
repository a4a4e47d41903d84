// C23: conduction in rods, rings and networks, stepped implicitly by the linear solvers through link faults, shuffled equations, crash and restore.
#include "h.h"
#include <vector>
using namespace mathlib;
namespace {
enum { RODS, RINGS, NETS, TICKS, RODSOLVES, RINGSOLVES, NETSOLVES, LONG, CUTS, FLOWS, SHUFFLES, SCALED, SINGULAR, BROKEN, RETRIES, INVERSES, HEAT, SAVES, CRASHES };
template <class R> struct World
{
	typedef Vec3<R> V; typedef Vec2<R> V2;
	L eps = epsOf<R>();
	struct Rod { bool on = false; int n = 0; bool ring = false; std::vector<R> cap, k, f, u; std::vector<V> uv; L heat = 0, err = 0, size = 0; };
	struct Net { bool on = false; int n = 0, m = 0; std::vector<R> cap, k, u; };
	Rod rod, srod; Net net, snet;
	static const L worst() { return 0; }

	// sum |M||x| + |r| against M x - r
	struct Resid { L r = 0, w = 0; };
	void start(const Step& st)
	{
		rod = Rod(); rod.on = true;
		int size = (int)md(st.arg(0), 100);
		rod.n = size < 70 ? 1 + (int)md(st.arg(1), 12) : size < 99 ? 1 + (int)md(st.arg(1), 96) : 97 + (int)md(st.arg(1), 900);
		rod.ring = (st.arg(2) & 1) && rod.n >= 3;
		if (rod.n > 12) ctr(LONG);
		ctr(rod.ring ? RINGS : RODS);
		Rng g((u64)st.arg(3));
		int n = rod.n;
		bool flow = st.arg(2) & 2;
		for (int i = 0; i < n; i++)
		{
			rod.cap.push_back((R)fx(g.range(256, 4096)));
			rod.k.push_back(g.chance(0.15) ? R(0) : (R)fx(g.range(1, 16384)));
			rod.f.push_back(flow && g.chance(0.7) ? (R)fx(g.range(-8192, 8192)) : R(0));
			rod.u.push_back((R)fx(g.range(-8192, 8192)));
			rod.uv.push_back(V(rod.u[i], (R)fx(g.range(-8192, 8192)), g.chance(0.5) ? R(0) : (R)fx(g.range(-8192, 8192))));
		}
		if (flow) ctr(FLOWS);
		heatOf();
	}
	void heatOf()
	{
		rod.heat = rod.size = 0; rod.err = 0;
		for (int i = 0; i < rod.n; i++) { rod.heat += (L)rod.cap[i] * rod.u[i]; rod.size += fabsl((L)rod.cap[i] * rod.u[i]); }
	}
	bool tick(R dt, i64 mode)
	{
		int n = rod.n;
		ctr(TICKS);
		// M u' = cap u: conduction both ways, upwind flow
		std::vector<R> a(n), b(n), c(n), r(n), x(n, R(-77));
		std::vector<V> rv(n), xv(n, V(R(-77), R(-77), R(-77)));
		R alpha = 0, beta = 0;
		for (int i = 0; i < n; i++) { b[i] = rod.cap[i]; a[i] = c[i] = 0; }
		for (int i = 0; i < (rod.ring ? n : n - 1); i++)
		{
			int j = (i + 1) % n;
			R k = rod.k[i] * dt, f = rod.f[i] * dt, fp = f > 0 ? f : R(0), fm = f < 0 ? -f : R(0);
			b[i] += k + fp; b[j] += k + fm;
			if (j) { a[i] = -(k + fp); c[i] = -(k + fm); } // M[j][i], M[i][j]
			else { beta = -(k + fp); alpha = -(k + fm); } // M[0][n-1], M[n-1][0]
		}
		// each equation in its own unit
		std::vector<int> unit(n, 0);
		Rng g((u64)mode);
		int all = 0;
		if (mode & 1) { ctr(SCALED); all = (int)g.range(-20, 20) * (sizeof(R) == 8 && !rod.ring ? 12 : 1); for (auto& q : unit) q = all + (rod.ring ? 0 : (int)g.range(-8, 8)); }
		bool neg = mode & 2;
		auto sc = [&](R v, int i) { R w = (R)std::ldexp(v, unit[i]); return neg ? -w : w; };
		for (int i = 0; i < n; i++)
		{
			L q = (L)rod.cap[i] * rod.u[i];
			r[i] = sc((R)q, i);
			rv[i] = V(sc(rod.cap[i] * rod.uv[i].x, i), sc(rod.cap[i] * rod.uv[i].y, i), sc(rod.cap[i] * rod.uv[i].z, i));
			b[i] = sc(b[i], i);
			if (i + 1 < n) { a[i] = sc(a[i], i + 1); c[i] = sc(c[i], i); }
		}
		alpha = sc(alpha, n - 1); beta = sc(beta, 0);
		bool ok = rod.ring ? TriDiagonal<R>::solveCyclic(a.data(), b.data(), c.data(), alpha, beta, r.data(), x.data(), n) : TriDiagonal<R>::solve(a.data(), b.data(), c.data(), r.data(), x.data(), n);
		ev(ok);
		ctr(rod.ring ? RINGSOLVES : RODSOLVES);
		if (!ok) { rep_violation("solve", "a %s of %d cells that can be solved is reported singular", rod.ring ? "ring" : "rod", n); return false; }
		if (!rod.ring)
		{
			if (!TriDiagonal<R>::solve(a.data(), b.data(), c.data(), rv.data(), xv.data(), n)) { rep_violation("solve", "a rod of %d cells that can be solved is reported singular for vectors", n); return false; }
		}
		// what the solution leaves
		L norm = 0, un = 0;
		for (int i = 0; i < n; i++) { norm = fmaxl(norm, fabsl((L)b[i]) + (i ? fabsl((L)a[i - 1]) : 0) + (i + 1 < n ? fabsl((L)c[i]) : 0)); un = fmaxl(un, fabsl((L)x[i])); evd(x[i]); }
		for (int q = 0; q < (rod.ring ? 1 : 4); q++)
		{
			auto X = [&](int i) -> L { return q == 0 ? x[i] : q == 1 ? xv[i].x : q == 2 ? xv[i].y : xv[i].z; };
			auto B = [&](int i) -> L { return q == 0 ? r[i] : q == 1 ? rv[i].x : q == 2 ? rv[i].y : rv[i].z; };
			for (int i = 0; i < n; i++)
			{
				L s = (L)b[i] * X(i), w = fabsl(s);
				auto put = [&](L m, int j) { s += m * X(j); w += fabsl(m * X(j)); };
				if (i) put(a[i - 1], i - 1);
				if (i + 1 < n) put(c[i], i + 1);
				if (rod.ring && i == 0) put(beta, n - 1);
				if (rod.ring && i == n - 1) put(alpha, 0);
				L tol = 16 * eps * (w + fabsl(B(i)));
				if (rod.ring) tol += 256 * eps * norm * un;
				if (!(fabsl(s - B(i)) <= tol)) { rep_violation("solve", "equation %d of a %s of %d cells is off by %.6Lg (tolerance %.3Lg)%s", i, rod.ring ? "ring" : "rod", n, s - B(i), tol, q ? " for vectors" : ""); return false; }
			}
		}
		// heat is neither made nor lost
		L heat = 0, room = 0;
		for (int i = 0; i < n; i++)
		{
			L row = fabsl((L)b[i]) + (i ? fabsl((L)a[i - 1]) : 0) + (i + 1 < n ? fabsl((L)c[i]) : 0) + fabsl((L)alpha) + fabsl((L)beta);
			room += std::ldexp(row, -unit[i]) * un;
			rod.u[i] = x[i];
			heat += (L)rod.cap[i] * x[i];
		}
		rod.err += (rod.ring ? 1024 : 64) * eps * (room + rod.size);
		ctr(HEAT);
		if (!(fabsl(heat - rod.heat) <= rod.err)) { rep_violation("heat", "a %s of %d cells holds %.9Lg, not %.9Lg (tolerance %.3Lg)", rod.ring ? "ring" : "rod", n, heat, rod.heat, rod.err); return false; }
		if (!rod.ring) rod.uv = xv;
		return true;
	}
	void network(const Step& st)
	{
		net = Net(); net.on = true;
		net.n = (st.arg(1) & 7) == 0 && md(st.arg(3), 16) == 0 ? 20 + (int)md(st.arg(0), 50) : 1 + (int)md(st.arg(0), (st.arg(1) & 7) ? 6 : 20); net.m = 1 + (int)md(st.arg(2), 4);
		ctr(NETS);
		Rng g((u64)st.arg(3));
		int n = net.n;
		for (int i = 0; i < n; i++) net.cap.push_back((R)fx(g.range(256, 4096)));
		net.k.assign(n * n, R(0));
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && g.chance(0.6)) net.k[i * n + j] = (R)fx(g.range(1, 4096));
		for (int i = 0; i < n * net.m; i++) net.u.push_back((R)fx(g.range(-8192, 8192)));
	}
	bool netTick(R dt, i64 mode, i64 how)
	{
		int n = net.n, m = net.m;
		ctr(TICKS);
		Rng g((u64)mode);
		std::vector<R> M(n * n), Rr(n * m);
		for (int i = 0; i < n; i++) M[i * n + i] = net.cap[i];
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { R k = net.k[i * n + j] * dt; M[j * n + i] -= k; M[i * n + i] += k; }
		for (int i = 0; i < n; i++) for (int l = 0; l < m; l++) Rr[i * m + l] = net.cap[i] * net.u[i * m + l];
		// the equations come in any order, each in its own unit, some more than once
		std::vector<int> ord(n), unit(n, 0);
		for (int i = 0; i < n; i++) ord[i] = i;
		if (how & 1) { ctr(SHUFFLES); for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[g.below(i + 1)]); }
		int all = 0;
		if (how & 2) { ctr(SCALED); all = (int)g.range(-20, 20) * (sizeof(R) == 8 ? 20 : 1); if (how & 4) for (auto& q : unit) q = (int)g.range(-3, 3); }
		std::vector<R> A(n * n), B(n * m);
		for (int i = 0; i < n; i++)
		{
			int q = unit[i] + all;
			bool neg = (how & 8) && (g.next() & 1);
			for (int j = 0; j < n; j++) { R v = (R)std::ldexp(M[ord[i] * n + j], q); A[i * n + j] = neg ? -v : v; }
			for (int l = 0; l < m; l++) { R v = (R)std::ldexp(Rr[ord[i] * m + l], q); B[i * m + l] = neg ? -v : v; }
		}
		if ((how & 48) == 48)
		{
			// an equation or an unknown is missing: nobody can solve that
			ctr(SINGULAR);
			std::vector<R> A2 = A, B2 = B;
			int z = (int)g.below(n);
			for (int j = 0; j < n; j++) (how & 64 ? A2[z * n + j] : A2[j * n + z]) = R(0);
			bool ok = GaussJordan<R>::solve(A2.data(), n, B2.data(), m);
			ev(ok);
			if (ok) { rep_violation("singular", "a network of %d nodes with an empty %s is solved", n, how & 64 ? "row" : "column"); return false; }
			ctr(RETRIES);
		}
		std::vector<R> X = B, I = A;
		bool ok;
		if (m == 2 && (how & 128)) { std::vector<V2> b(n); for (int i = 0; i < n; i++) b[i] = V2(B[2 * i], B[2 * i + 1]); ok = GaussJordan<R>::solve(I.data(), n, b.data()); for (int i = 0; i < n; i++) { X[2 * i] = b[i].x; X[2 * i + 1] = b[i].y; } }
		else if (m == 3 && (how & 128)) { std::vector<V> b(n); for (int i = 0; i < n; i++) b[i] = V(B[3 * i], B[3 * i + 1], B[3 * i + 2]); ok = GaussJordan<R>::solve(I.data(), n, b.data()); for (int i = 0; i < n; i++) { X[3 * i] = b[i].x; X[3 * i + 1] = b[i].y; X[3 * i + 2] = b[i].z; } }
		else ok = GaussJordan<R>::solve(I.data(), n, X.data(), m);
		ev(ok);
		ctr(NETSOLVES);
		if (!ok) { rep_violation("solve", "a network of %d nodes that can be solved is reported singular", n); return false; }
		// the solution, against the equations; the inverse, against the matrix
		L norm = 0, inorm = 0;
		for (int i = 0; i < n; i++) { L s = 0, t = 0; for (int j = 0; j < n; j++) { s += fabsl((L)A[i * n + j]); t += fabsl((L)I[i * n + j]); } norm = fmaxl(norm, s); inorm = fmaxl(inorm, t); }
		L grow = norm * inorm;
		for (int l = 0; l < m; l++)
		{
			L un = 0;
			for (int i = 0; i < n; i++) { un = fmaxl(un, fabsl((L)X[i * m + l])); evd(X[i * m + l]); }
			for (int i = 0; i < n; i++)
			{
				L s = 0, w = 0;
				for (int j = 0; j < n; j++) { L t = (L)A[i * n + j] * X[j * m + l]; s += t; w += fabsl(t); }
				L tol = 16 * n * eps * (w + fabsl((L)B[i * m + l])) + 4 * n * eps * norm * un * fminl(grow, 64);
				if (!(fabsl(s - B[i * m + l]) <= tol)) { rep_violation("solve", "equation %d of a network of %d nodes is off by %.6Lg for field %d (tolerance %.3Lg)", i, n, s - B[i * m + l], l, tol); return false; }
			}
		}
		ctr(INVERSES);
		for (int i = 0; i < n; i++)
			for (int j = 0; j < n; j++)
			{
				L s = 0, w = 0;
				for (int k = 0; k < n; k++) { L t = (L)I[i * n + k] * A[k * n + j]; s += t; w += fabsl(t); }
				L tol = 16 * n * eps * (w + 1) * fminl(grow, 64);
				if (!(fabsl(s - (i == j)) <= tol)) { rep_violation("inverse", "the inverse of a network of %d nodes gives %.9Lg at %d %d (tolerance %.3Lg)", n, s, i, j, tol); return false; }
			}
		net.u = X;
		return true;
	}
	// a matrix with a given sequence of exact pivots
	bool pivots(const Step& st)
	{
		int n = 1 + (int)md(st.arg(0), 6);
		Rng g((u64)st.arg(1));
		std::vector<R> a(n), b(n), c(n), r(n), x(n, R(3));
		L piv = 0;
		for (int i = 0; i < n; i++)
		{
			a[i] = (R)std::ldexp(g.chance(0.5) ? 1 : -1, (int)g.range(-2, 2)); c[i] = (R)std::ldexp(g.chance(0.5) ? 1 : -1, (int)g.range(-2, 2));
			r[i] = (R)g.range(-8, 8);
			L want = i == n - 1 ? 0 : std::ldexp(g.chance(0.5) ? 1 : -1, (int)g.range(-2, 2));
			b[i] = (R)(want + (i ? (L)a[i - 1] * c[i - 1] / piv : 0));
			piv = want;
		}
		ctr(SINGULAR);
		bool ok = TriDiagonal<R>::solve(a.data(), b.data(), c.data(), r.data(), x.data(), n);
		ev(ok);
		if (ok) { rep_violation("singular", "a singular tridiagonal system of %d equations is solved", n); return false; }
		std::vector<V> rv(n, V(R(1), R(2), R(3))), xv(n);
		ok = TriDiagonal<R>::solve(a.data(), b.data(), c.data(), rv.data(), xv.data(), n);
		ev(ok);
		if (ok) { rep_violation("singular", "a singular tridiagonal system of %d equations is solved for vectors", n); return false; }
		if (n >= 3)
		{
			// closed by nothing it is the same system
			ok = TriDiagonal<R>::solveCyclic(a.data(), b.data(), c.data(), R(0), R(0), r.data(), x.data(), n);
			if (ok) { rep_violation("singular", "a singular cyclic system of %d equations is solved", n); return false; }
			// a closed ring without any capacity: success must not come with values that are not numbers
			R k = (R)std::ldexp(1, (int)g.range(-4, 4));
			for (int i = 0; i < n; i++) { a[i] = c[i] = -k; b[i] = 2 * k; r[i] = (R)(i == 0); }
			ok = TriDiagonal<R>::solveCyclic(a.data(), b.data(), c.data(), -k, -k, r.data(), x.data(), n);
			ev(ok);
			for (int i = 0; ok && i < n; i++) if (!std::isfinite(x[i])) { rep_violation("singular", "a singular ring of %d cells is solved, by %g", n, (double)x[i]); return false; }
		}
		// a broken pivot on the way: no answer, or a right one
		if (n >= 2)
		{
			ctr(BROKEN);
			int z = (int)g.below(n - 1);
			piv = 0;
			for (int i = 0; i < n; i++)
			{
				L want = i == z ? 0 : std::ldexp(g.chance(0.5) ? 1 : -1, (int)g.range(-2, 2));
				b[i] = (R)(want + (i && piv != 0 ? (L)a[i - 1] * c[i - 1] / piv : 0));
				piv = want;
			}
			ok = TriDiagonal<R>::solve(a.data(), b.data(), c.data(), r.data(), x.data(), n);
			ev(ok);
			for (int i = 0; ok && i < n; i++)
			{
				L s = (L)b[i] * x[i], w = fabsl(s);
				if (i) { s += (L)a[i - 1] * x[i - 1]; w += fabsl((L)a[i - 1] * x[i - 1]); }
				if (i + 1 < n) { s += (L)c[i] * x[i + 1]; w += fabsl((L)c[i] * x[i + 1]); }
				if (!(fabsl(s - r[i]) <= 4096 * eps * (w + 8))) { rep_violation("solve", "a system with a zero pivot is solved, with equation %d off by %.6Lg", i, s - r[i]); return false; }
			}
		}
		return true;
	}
	void run(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			if (st.k == "rod") start(st);
			else if (st.k == "net") network(st);
			else if (st.k == "tick") { R dt = (R)fx(md(st.arg(0), 16384)); g_sh->simtime_us += (u64)(dt * 1e6); if (rod.on && !tick(dt, st.arg(1))) return; }
			else if (st.k == "nettick") { R dt = (R)fx(md(st.arg(0), 4096)); g_sh->simtime_us += (u64)(dt * 1e6); if (net.on && !netTick(dt, st.arg(1), st.arg(2))) return; }
			else if (st.k == "link")
			{
				if (rod.on) { rod.k[md(st.arg(0), rod.n)] = (R)fx(md(st.arg(1), 16384)); if (!md(st.arg(1), 16384)) ctr(CUTS); }
				if (net.on) { int i = (int)md(st.arg(2), net.n), j = (int)md(st.arg(3), net.n); if (i != j) net.k[i * net.n + j] = (R)fx(md(st.arg(1), 4096)); }
			}
			else if (st.k == "flow") { if (rod.on) { ctr(FLOWS); rod.f[md(st.arg(0), rod.n)] = (R)fx(st.arg(1) % 8192); } }
			else if (st.k == "heat") { if (rod.on) { rod.u[md(st.arg(0), rod.n)] = (R)fx(st.arg(1) % 8192); heatOf(); } }
			else if (st.k == "pivots") { if (!pivots(st)) return; }
			else if (st.k == "save") { ctr(SAVES); srod = rod; snet = net; }
			else if (st.k == "crash") { ctr(CRASHES); rod = srod; net = snet; }
		}
	}
};
}
const char* const names_C23[] = { "rods", "rings", "networks", "time steps", "rods solved", "rings solved", "networks solved", "rods of more than 12 cells", "links cut", "flows", "shuffled equations", "rescaled equations", "singular systems", "zero pivots on the way", "solves after a failed one", "inverses", "heat balances", "checkpoints", "crashes with restore", nullptr };
void gen_C23(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	int n = (int)r.range(6, tier ? 80 : 40);
	auto rod = [&]() { p.add("rod", { r.range(0, 99), r.range(0, 1000), r.range(0, 3), r.range(0, 1 << 20) }); };
	auto net = [&]() { p.add("net", { r.range(0, 1000), r.range(0, 7), r.range(0, 3), r.range(0, 1 << 20) }); };
	rod(); net();
	p.add("save", { 0 });
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		if (u < 0.05) rod();
		else if (u < 0.10) net();
		else if (u < 0.50) p.add("tick", { r.chance(0.1) ? 0 : r.chance(0.3) ? r.range(1, 16) : r.range(1, 16383), r.range(0, 1 << 20) });
		else if (u < 0.70) p.add("nettick", { r.chance(0.1) ? 0 : r.range(1, 4095), r.range(0, 1 << 20), r.range(0, 255) });
		else if (u < 0.78) p.add("link", { r.range(0, 95), r.chance(0.4) ? 0 : r.range(0, 16383), r.range(0, 19), r.range(0, 19) });
		else if (u < 0.83) p.add("flow", { r.range(0, 95), r.range(-8191, 8191) });
		else if (u < 0.88) p.add("heat", { r.range(0, 95), r.range(-8191, 8191) });
		else if (u < 0.93) p.add("pivots", { r.range(0, 5), r.range(0, 1 << 20) });
		else if (u < 0.97) p.add("save", { 0 });
		else p.add("crash", { 0 });
	}
}
void exec_C23(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<double>)->run(p); else (new World<float>)->run(p);
}
