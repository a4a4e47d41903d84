// C19: headings in the plane kept as wrapped angles, vectors and 2x2 matrices, with fail-over between them.
#include "h.h"
using namespace mathlib;
namespace {
enum { OPS, TURNS, QUARTERS, MIRRORS, TOWARDS, LIMITED, COMPOSE, DIVIDE, LENGTHS, CASTS, SAVES, CRASHES, REBUILDS, OPPOSITE, SCALED, PROBES, STRIDED, BIG, NC = 4 };
const L TAU = 6.283185307179586476925286766559L, HALF = TAU / 2;
inline L wrap(L d) { return remainderl(d, TAU); }

template <class R> struct World
{
	typedef Vec2<R> V; typedef Mat2<R> M;
	struct Craft
	{
		bool on = false, centred = false;
		R s; V v; M m;                  // replicas: wrapped angle, vector, matrix
		L a = 0, len = 1;               // reference
		L es = 0, ev = 0, em = 0;       // bounds: of the angle, of the vector relative to its length, of a matrix element
	};
	Craft c[NC], saved[NC];
	L eps = epsOf<R>();

	R wrapped(const Craft& x, R angle)
	{
		R r = x.centred ? fmodCentered(angle, Constants<R>::PI_TIMES_2) : fmodPositive(angle, Constants<R>::PI_TIMES_2);
		L lo = x.centred ? -HALF : 0, hi = x.centred ? HALF : TAU;
		if (!(r >= lo - 4 * eps && r <= hi + 4 * eps)) rep_violation("range", "angle %.9Lg wrapped to %.9Lg, outside %.4Lg..%.4Lg", (L)angle, (L)r, lo, hi);
		return r;
	}
	bool check(Craft& x, const char* what)
	{
		ctr(OPS);
		x.es += 16 * eps * TAU; x.ev += 16 * eps; x.em += 64 * eps;
		L vx = x.len * cosl(x.a), vy = x.len * sinl(x.a), cs = cosl(x.a), sn = sinl(x.a);
		evd(x.s); evd(x.v.x); evd(x.v.y); evd(x.m.x.x); evd(x.m.x.y); evd(x.m.y.x); evd(x.m.y.y);
		if (!(fabsl(wrap(x.s - x.a)) <= x.es)) { rep_violation("angle", "after %s the wrapped angle is %.9Lg, the heading is %.9Lg (tolerance %.3Lg)", what, (L)x.s, wrap(x.a), x.es); return false; }
		if (!(fmaxl(fabsl(x.v.x - vx), fabsl(x.v.y - vy)) <= x.ev * x.len)) { rep_violation("vector", "after %s the vector is (%.9Lg, %.9Lg), the heading is (%.9Lg, %.9Lg) (tolerance %.3Lg)", what, (L)x.v.x, (L)x.v.y, vx, vy, x.ev * x.len); return false; }
		if (!(fabsl(x.m.x.x - cs) <= x.em && fabsl(x.m.x.y - sn) <= x.em && fabsl(x.m.y.x + sn) <= x.em && fabsl(x.m.y.y - cs) <= x.em))
		{ rep_violation("matrix", "after %s the matrix is (%.9Lg, %.9Lg; %.9Lg, %.9Lg), the heading is cos %.9Lg sin %.9Lg (tolerance %.3Lg)", what, (L)x.m.x.x, (L)x.m.x.y, (L)x.m.y.x, (L)x.m.y.y, cs, sn, x.em); return false; }
		return true;
	}
	bool near(const char* what, L got, L want, L tol)
	{
		evd(got);
		if (fabsl(got - want) <= tol) return true;
		rep_violation("measure", "%s is %.9Lg, not %.9Lg (tolerance %.3Lg)", what, got, want, tol);
		return false;
	}
	void fresh(Craft& x, R angle, R len, int how)
	{
		x.s = wrapped(x, angle);
		x.a = angle; x.len = len;
		x.es = eps * fabsl(angle); x.ev = x.em = 0;
		if (how & 1) x.v.setAngle(angle, len); else x.v = V::fromAngle(angle, len);
		if (how & 2) x.m.set(angle); else x.m = M::from(angle);
	}
	void run(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			Craft& x = c[md(st.arg(0), NC)];
			int how = (int)md(st.arg(1), 64);
			if (st.k == "new")
			{
				x = Craft(); x.on = true; x.centred = st.arg(2) & 1;
				fresh(x, (R)fx(st.arg(3)), (R)(0.25 + fx(md(st.arg(4), 1 << 16))), how);
				check(x, "setting the heading");
				continue;
			}
			if (!x.on) continue;
			shape(how & 7);
			Craft& y = c[md(st.arg(2), NC)];
			if (st.k == "turn")
			{
				R d = (R)fx(st.arg(3));
				if (st.arg(4) % 8 == 1) { d *= R(64); ctr(BIG); }
				if (st.arg(4) % 8 == 2) d *= R(1e-5);
				ctr(TURNS);
				x.a += d;
				x.es += 2 * eps * fabsl(d);
				x.s = wrapped(x, x.s + d);
				if (how & 1) x.v.rotate(d); else PUT(x.v, x.v.rotated(d));
				switch ((how >> 1) % 7)
				{
				case 0: x.m.rotate(d); break;
				case 1: x.m.rotatePre(d); break;
				case 2: PUT(x.m, x.m.rotated(d)); break;
				case 3: PUT(x.m, x.m * M::from(d)); break;
				case 4: PUT(x.m, M::from(d) * x.m); break;
				case 5: x.m *= M::from(d); break;
				default: { M r; M::multiply(r, x.m, M::from(d)); x.m.set(r); break; }
				}
				check(x, "a turn");
			}
			else if (st.k == "quarter")
			{
				int k = 1 + (int)md(st.arg(3), 3);
				ctr(QUARTERS);
				x.a += TAU / 4 * k;
				x.s = wrapped(x, x.s + Constants<R>::PI_TIMES_2 * R(0.25) * R(k));
				static const L cs[4] = { 1, 0, -1, 0 };
				M q(V((R)cs[k], (R)cs[(k + 3) % 4]), V((R)-cs[(k + 3) % 4], (R)cs[k]));
				if (how & 1) { if (k == 1) x.v.rotate90(); else if (k == 2) x.v.rotate180(); else x.v.rotate270(); }
				else PUT(x.v, k == 1 ? x.v.rotated90() : k == 2 ? ((how & 8) ? -x.v : x.v.rotated180()) : x.v.rotated270());
				if (k == 2 && (how & 4)) PUT(x.m, -x.m); else if (how & 2) PUT(x.m, x.m * q); else x.m *= q;
				check(x, "a quarter turn");
			}
			else if (st.k == "mirror")
			{
				Coord ax = (how & 1) ? Coord::X : Coord::Y;
				ctr(MIRRORS);
				PUT(x.a, (how & 1) ? HALF - x.a : -x.a);
				x.s = wrapped(x, (how & 1) ? Constants<R>::PI_TIMES_2 * R(0.5) - x.s : -x.s);
				if (how & 2) x.v.mirror(ax); else PUT(x.v, x.v.mirrored(ax));
				// conj(m), then half a turn for the X mirror
				switch ((how >> 2) % 5)
				{
				case 0: x.m.transpose(); break;
				case 1: PUT(x.m, x.m.transposed()); break;
				case 2: PUT(x.m, x.m.inversed()); break;
				case 3: PUT(x.m, x.m.adjoint()); break;
				default: PUT(x.m, x.m.cofactors().transposed()); break;
				}
				if (how & 1) { if (how & 8) x.m *= R(-1); else PUT(x.m, x.m * R(-1)); }
				check(x, "a mirroring");
			}
			else if (st.k == "toward")
			{
				if (&y == &x || !y.on) continue;
				R ratio = st.arg(4) % 5 == 0 ? R(md(st.arg(3), 2)) : (R)md(st.arg(3), 1025) / R(1024);
				L d = wrap(y.a - x.a), slack = x.es + y.es + x.ev + y.ev + x.em + y.em + 1e-3L;
				ctr(TOWARDS);
				V v; M m;
				// the angles may have wound up any number of turns
				i64 k1 = st.arg(5) % 4, k2 = st.arg(5) / 4 % 4;
				R s = clerp((R)(x.s + Constants<R>::PI_TIMES_2 * R(k1)), (R)(y.s + Constants<R>::PI_TIMES_2 * R(k2)), ratio);
				x.es += 16 * eps * TAU * (std::abs(k1) + std::abs(k2));
				switch (how & 3) { case 0: v.clerp(x.v, y.v, ratio); break; case 1: v = V::fromClerp(x.v, y.v, ratio); break; default: v = x.v; v.clerp(v, y.v, ratio); break; }
				switch ((how >> 2) & 3) { case 0: m.slerp(x.m, y.m, ratio); break; case 1: m = M::fromSlerp(x.m, y.m, ratio); break; case 2: m = x.m; m.slerp(m, y.m, ratio); break; default: m = y.m; m.slerp(x.m, m, ratio); break; }
				L len = x.len + (y.len - x.len) * ratio;
				if (HALF - fabsl(d) < slack)
				{
					// either way round: each replica must be on one of the two arcs
					ctr(OPPOSITE);
					L got[3] = { (L)s, atan2l(v.y, v.x), atan2l(m.x.y, m.x.x) };
					for (int i = 0; i < 3; i++) if (!(fminl(fabsl(wrap(got[i] - x.a - HALF * ratio)), fabsl(wrap(got[i] - x.a + HALF * ratio))) <= 2 * slack))
					{ rep_violation("toward", "from %.9Lg towards the opposite %.9Lg by %.6Lg a replica is at %.9Lg", wrap(x.a), wrap(y.a), (L)ratio, got[i]); return; }
					fresh(x, s, (R)len, how);
					x.es += 16 * eps * TAU;
					check(x, "turning back");
					continue;
				}
				x.a += d * ratio;
				x.s = wrapped(x, s); x.v = v; x.m = m;
				x.es += y.es; x.ev += y.ev; x.em += y.em;
				x.len = len;
				x.ev += 16 * eps * TAU; x.em += 16 * eps * TAU;
				check(x, "turning towards another");
			}
			else if (st.k == "limit")
			{
				// a turn of at most so much towards another heading
				if (&y == &x || !y.on) continue;
				R most = (R)(1 + md(st.arg(3), 4096)) / R(1024);
				L d = wrap(y.a - x.a), slack = x.es + y.es + x.ev + y.ev + x.em + y.em + 64 * eps * TAU;
				if (fabsl(d) < 0.05L || slack > 0.01L || !(fabsl(y.len) > 0)) continue;
				ctr(LIMITED);
				V v; M m;
				R s = clerpMaxAngle(x.s, y.s, most);
				switch (how & 3) { case 0: v.clerpMaxAngle(x.v, y.v, most); break; case 1: v = V::fromClerpMaxAngle(x.v, y.v, most); break; case 2: v = y.v; v.clerpMaxAngle(x.v, v, most); break; default: v = x.v; v.clerpMaxAngle(v, y.v, most); break; }
				switch ((how >> 2) & 3) { case 0: m.slerpMaxAngle(x.m, y.m, most); break; case 1: m = M::fromSlerpMaxAngle(x.m, y.m, most); break; case 2: m = x.m; m.slerpMaxAngle(m, y.m, most); break; default: m = y.m; m.slerpMaxAngle(x.m, m, most); break; }
				L ratio = fminl(1, most / fabsl(d)), step = d * ratio, got[3] = { (L)s, atan2l(v.y, v.x), atan2l(m.x.y, m.x.x) }, len = x.len + (y.len - x.len) * ratio;
				bool either = HALF - fabsl(d) < 2 * slack;
				if (either) ctr(OPPOSITE);
				for (int i = 0; i < 3; i++) if (!(fabsl(wrap(got[i] - x.a - step)) <= 4 * slack || (either && fabsl(wrap(got[i] - x.a + step)) <= 4 * slack)))
				{ rep_violation("toward", "from %.9Lg towards %.9Lg by at most %.6Lg a replica is at %.9Lg", wrap(x.a), wrap(y.a), (L)most, got[i]); return; }
				if (!near("the length of a vector on its way to another", v.length(), len, 4 * (slack / fabsl(d) + slack) * (x.len + y.len))) return;
				if (!near("the determinant of a matrix on its way to another", m.determinant(), 1, 4 * slack)) return;
				fresh(x, s, (R)len, how);
				x.es += 16 * eps * TAU;
				check(x, "turning at most so much");
			}
			else if (st.k == "compose" || st.k == "divide")
			{
				if (&y == &x || !y.on) continue;
				bool by = st.k == "divide";
				ctr(by ? DIVIDE : COMPOSE);
				x.a += by ? -y.a : y.a;
				PUT(x.s, wrapped(x, by ? x.s - y.s : x.s + y.s));
				if (by) { if (how & 1) x.v *= y.m; else PUT(x.v, x.v * y.m); }
				else if (how & 1) PUT(x.v, y.m * x.v); else { V t; y.m.transform(t, x.v); x.v = t; }
				M o = by ? ((how & 2) ? y.m.transposed() : y.m.inversed()) : y.m;
				switch ((how >> 2) % 4)
				{
				case 0: PUT(x.m, x.m * o); break;
				case 1: PUT(x.m, o * x.m); break;
				case 2: x.m *= o; break;
				default: { M r; M::multiply(r, o, x.m); x.m = r; break; }
				}
				x.es += y.es; x.ev += y.em; x.em += y.em;
				check(x, by ? "turning back by another's heading" : "turning by another's heading");
			}
			else if (st.k == "length")
			{
				R k = (R)(0.25 + fx(md(st.arg(3), 1 << 13)));
				ctr(LENGTHS);
				switch (how & 3)
				{
				case 0: if (!(x.len * k < 1e6L && x.len * k > 1e-3L)) continue; x.v *= k; x.len *= k; break;
				case 1: if (!(x.len / k < 1e6L && x.len / k > 1e-3L)) continue; PUT(x.v, x.v / k); x.len /= k; break;
				case 2: { R was = x.v.normalize(k); if (!near("the length returned by normalize", was, x.len, (x.ev + 8 * eps) * 2 * x.len)) return; x.len = k; break; }
				default: PUT(x.v, x.v.normalized(k)); x.len = k; break;
				}
				x.m.orthonormalise();
				check(x, "a change of length");
			}
			else if (st.k == "scaled")
			{
				// a scaling of the rotation, and its inverse
				R kx = (R)(0.25 + fx(md(st.arg(3), 4096))), ky = st.arg(4) % 3 == 0 ? kx : (R)(0.25 + fx(md(st.arg(4), 4096)));
				M g = x.m;
				ctr(SCALED);
				if (st.arg(4) % 3 == 0 && (how & 1)) { if (how & 2) g *= kx; else PUT(g, (how & 4) ? g * kx : g / (R(1) / kx)); }
				else if (how & 1) g.scale(V(kx, ky)); else PUT(g, g.scaled(V(kx, ky)));
				M inv = g.inversed();
				L d = (L)kx * ky, big = fmaxl(kx, ky), small = fminl(kx, ky), e = (x.em + 16 * eps) * 4;
				if (!near("determinant of a scaled rotation", g.determinant(), d, e * d)) return;
				V q((R)fx(st.arg(5)), (R)fx(st.arg(6))), there = g * q, back = inv * there;
				L mag = fabsl((L)q.x) + fabsl((L)q.y), cs = cosl(x.a), sn = sinl(x.a);
				if (!near("a scaled and rotated x", there.x, cs * kx * q.x - sn * ky * q.y, e * big * mag) || !near("a scaled and rotated y", there.y, sn * kx * q.x + cs * ky * q.y, e * big * mag)) return;
				L tol = e * 4 * big / small * mag;
				if (!near("a point returned by the inverse", back.x, q.x, tol) || !near("a point returned by the inverse", back.y, q.y, tol)) return;
				M id = (how & 8) ? g * inv : inv * g;
				if (!near("inverse times matrix", fabsl(id.x.x - (L)1) + fabsl(id.x.y) + fabsl(id.y.x) + fabsl(id.y.y - (L)1), 0, e * 16 * big / small)) return;
			}
			else if (st.k == "cast")
			{
				ctr(CASTS);
				if (sizeof(R) == 4)
				{
					V v = x.v.template cast<double>().template cast<R>(); M m = x.m.template cast<double>().template cast<R>();
					if (v != x.v || !(m == x.m)) { rep_violation("vector", "a vector or matrix changes when cast to double and back"); return; }
					x.v = v; x.m = m;
				}
				else { PUT(x.v, x.v.template cast<float>().template cast<R>()); x.m = x.m.template cast<float>().template cast<R>(); x.ev += epsOf<float>(); x.em += epsOf<float>(); }
				check(x, "a cast there and back");
			}
			else if (st.k == "save") { ctr(SAVES); for (int i = 0; i < NC; i++) saved[i] = c[i]; }
			else if (st.k == "crash") { ctr(CRASHES); memset((void*)c, 0xA5, sizeof c); for (int i = 0; i < NC; i++) c[i] = saved[i]; }
			else if (st.k == "fail")
			{
				// one replica is lost and rebuilt from another
				ctr(REBUILDS);
				switch (md(st.arg(3), 6))
				{
				case 0: memset((void*)&x.s, 0xA5, sizeof x.s); x.s = wrapped(x, x.v.angle()); x.es = 2 * x.ev; break;
				case 1: memset((void*)&x.s, 0xA5, sizeof x.s); x.s = wrapped(x, x.m.angle()); x.es = 2 * x.em; break;
				case 2: { V u = x.v.normalized(), w = (how & 1) ? u.rotated90() : -u.rotated270(); memset((void*)&x.m, 0xA5, sizeof x.m); x.m = (how & 2) ? M(u, w) : M::from(u, w); x.em = 2 * x.ev; break; }
				case 3: memset((void*)&x.m, 0xA5, sizeof x.m); x.m = M(); x.m.set(x.s); x.em = x.es; break;
				case 4: memset((void*)&x.v, 0xA5, sizeof x.v); x.v = (how & 1) ? x.m.x : (how & 2) ? x.m.y.rotated270() : x.m * V::OneX; x.len = 1; x.ev = 2 * x.em; break;
				default: memset((void*)&x.v, 0xA5, sizeof x.v); x.v = V::fromAngle(x.s, (R)x.len); x.len = (R)x.len; x.ev = x.es; break;
				}
				check(x, "a rebuild from another replica");
			}
			else if (st.k == "probe")
			{
				ctr(PROBES);
				if (!near("determinant", x.m.determinant(), 1, 4 * x.em) || !near("trace", x.m.trace(), 2 * cosl(x.a), 2 * x.em)) return;
				if (!near("length", x.v.length(), x.len, (x.ev * 2 + 8 * eps) * x.len) || !near("lengthSqr", x.v.lengthSqr(), x.len * x.len, (x.ev * 4 + 8 * eps) * x.len * x.len)) return;
				if (y.on)
				{
					L e = (x.ev + y.ev) * 2 + 8 * eps, d = y.a - x.a, l = x.len * y.len;
					if (!near("dot product", x.v * y.v, l * cosl(d), e * l) || !near("cross product", x.v % y.v, l * sinl(d), e * l)) return;
					L ang = x.a + d, got = atan2l((x.v % y.v), (x.v * y.v));
					if (!(fabsl(wrap(got - (ang - x.a))) <= 2 * e)) { rep_violation("measure", "the angle between two headings is %.9Lg, not %.9Lg", got, wrap(ang - x.a)); return; }
				}
				// a batch of points through the matrix
				int n = md(st.arg(6), 16) ? 1 + (int)md(st.arg(3), 9) : (int)md(st.arg(7), 80), so = (int)md(st.arg(4), 4), si = (int)md(st.arg(5), 4);
				size_t ds = sizeof(V) + so * sizeof(R), ss = sizeof(V) + si * sizeof(R);
				std::vector<char> src(ss * n + 64, 0x5A), dst(ds * n + 64, 0x5B);
				auto S = [&](int i) -> V& { return *(V*)(src.data() + i * ss); };
				auto D = [&](int i) -> V& { return *(V*)(dst.data() + i * ds); };
				for (int i = 0; i < n; i++) S(i) = V((R)fx(st.arg(6) * (i + 1) % 4096), (R)fx(st.arg(7) * (2 * i + 1) % 4096));
				bool strided = so || si || (how & 1);
				if (strided) { ctr(STRIDED); x.m.transform(&D(0), &S(0), (size_t)n, ds, ss); }
				else x.m.transform(&D(0), &S(0), (size_t)n);
				for (int i = 0; i < n; i++)
				{
					L px = S(i).x, py = S(i).y, mag = fabsl(px) + fabsl(py);
					if (!near("a mapped x", D(i).x, px * cosl(x.a) - py * sinl(x.a), (x.em + 8 * eps) * mag) || !near("a mapped y", D(i).y, px * sinl(x.a) + py * cosl(x.a), (x.em + 8 * eps) * mag)) return;
				}
				for (size_t k = n * ds; k < dst.size(); k++) if (dst[k] != 0x5B) { rep_violation("measure", "a mapping of %d points wrote behind its outputs", n); return; }
				for (int i = 0; i < n; i++) for (size_t k = sizeof(V); k < ds; k++) if (dst[i * ds + k] != 0x5B) { rep_violation("measure", "a strided mapping wrote between its outputs"); return; }
			}
		}
	}
};
}
const char* const names_C19[] = { "operations", "turns", "quarter turns", "mirrorings", "turns towards another heading", "turns limited to an angle", "compositions", "divisions", "changes of length", "casts there and back", "checkpoints", "crashes with restore", "replicas rebuilt from another", "turns towards the opposite", "scalings undone by an inverse", "probes", "strided mappings", "turns of many revolutions", nullptr };
void gen_C19(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	int n = (int)r.range(6, tier ? 90 : 45), nc = (int)r.range(1, NC);
	auto h = [&]() { return r.range(0, 63); };
	auto ang = [&]() -> i64 { return r.chance(0.15) ? r.range(-4, 4) * 1608 : r.chance(0.1) ? 0 : r.chance(0.3) ? r.range(-200, 200) : r.range(-7000, 7000); };
	auto fresh = [&](int i) { p.add("new", { i, h(), r.range(0, 1), ang(), r.chance(0.4) ? 768 : r.range(0, 1 << 16) }); };
	for (int i = 0; i < nc; i++) fresh(i);
	p.add("save", { 0 });
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		int a = (int)r.range(0, nc - 1), b = (int)r.range(0, nc - 1);
		if (u < 0.26) p.add("turn", { a, h(), 0, ang(), r.range(0, 15) });
		else if (u < 0.33) p.add("quarter", { a, h(), 0, r.range(0, 2) });
		else if (u < 0.40) p.add("mirror", { a, h() });
		else if (u < 0.52) p.add("toward", { a, h(), b, r.range(0, 1 << 20), r.range(0, 20), r.range(-15, 15) });
		else if (u < 0.56) p.add("limit", { a, h(), b, r.range(0, 4095) });
		else if (u < 0.61) p.add("compose", { a, h(), b });
		else if (u < 0.68) p.add("divide", { a, h(), b });
		else if (u < 0.74) p.add("length", { a, h(), 0, r.range(0, 1 << 13) });
		else if (u < 0.77) p.add("cast", { a });
		else if (u < 0.79) p.add("save", { 0 });
		else if (u < 0.81) p.add("crash", { 0 });
		else if (u < 0.89) p.add("fail", { a, h(), 0, r.range(0, 5) });
		else if (u < 0.92) p.add("scaled", { a, h(), 0, r.range(0, 4095), r.range(0, 4095), r.range(-3000, 3000), r.range(-3000, 3000) });
		else if (u < 0.98) p.add("probe", { a, h(), b, r.range(0, 8), r.range(0, 3), r.range(0, 3), r.range(-3000, 3000), r.range(-3000, 3000) });
		else fresh(a);
	}
}
void exec_C19(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<double>)->run(p); else (new World<float>)->run(p);
}
