// C22: curves that are split, converted, saved and restored, and splines rebuilt from an unreliable stream of way points.
#include "h.h"
#include <map>
#include <memory>
using namespace mathlib;
namespace {
enum { ROOTS, SPLITS, ENDSPLITS, EXTRA, DEEP, SAMPLES, SPECIAL, HERMITE, WEIGHTS, FRAMES, NOFRAME, LENGTHS, BUILDS, TWO, CLOSED, CLAMPED, NATURAL, DELIVER, DUPS, LATE, JOINTS, SAVES, CRASHES, MANY, NP = 16, NS = 2, MAXW = 64, MANYW = 512 };

// a cubic in exact arithmetic
struct C3
{
	L3 p[4];
	L3 at(L t) const { L c = 1 - t; return p[0] * (c * c * c) + p[1] * (3 * t * c * c) + p[2] * (3 * t * t * c) + p[3] * (t * t * t); }
	L3 d1(L t) const { L c = 1 - t; return (p[1] - p[0]) * (3 * c * c) + (p[2] - p[1]) * (6 * t * c) + (p[3] - p[2]) * (3 * t * t); }
	L3 d2(L t) const { return (p[2] - p[1] * 2 + p[0]) * (6 * (1 - t)) + (p[3] - p[2] * 2 + p[1]) * (6 * t); }
	L size() const { return fmaxl(fmaxl(p[0].maxabs(), p[1].maxabs()), fmaxl(p[2].maxabs(), p[3].maxabs())); }
};
template <class R> C3 c3(const BezierSegment3<R>& b) { C3 c; c.p[0] = L3::of(b.p1()); c.p[1] = L3::of(b.p2()); c.p[2] = L3::of(b.p3()); c.p[3] = L3::of(b.p4()); return c; }

template <class R> struct World
{
	typedef Vec3<R> V; typedef BezierSegment3<R> B;
	struct Piece { bool on = false; B b; C3 root; L u0 = 0, u1 = 1, err = 0; int depth = 0; };
	struct Spline { bool on = false; int kind = 0; std::map<int, V> way; V a, b; };
	Piece piece[NP], spiece[NP];
	Spline spline[NS], sspline[NS];
	L eps = epsOf<R>();

	static const char* num(const L3& v) { static char s[4][96]; static int k; k = (k + 1) & 3; snprintf(s[k], 96, "(%.9Lg, %.9Lg, %.9Lg)", v.x, v.y, v.z); return s[k]; }
	bool near(const char* cl, const char* what, const V& got, const L3& want, L tol, L t)
	{
		ev3(L3::of(got));
		if ((L3::of(got) - want).maxabs() <= tol) return true;
		rep_violation(cl, "%s at %.9Lg is %s, not %s (tolerance %.3Lg)", what, t, num(L3::of(got)), num(want), tol);
		return false;
	}
	bool sample(const Piece& p, R t)
	{
		ctr(SAMPLES);
		if (t == 0 || t == 1) ctr(SPECIAL);
		C3 own = c3(p.b);
		L S = own.size(), k = 64 * eps * S, w = p.u1 - p.u0, u = p.u0 + w * t;
		V at = p.b.pointAt(t), tan = p.b.tangentAt(t);
		// the piece itself, then the curve it was cut from
		if (!near("point", "the point", at, own.at(t), k, t) || !near("tangent", "the tangent", tan, own.d1(t), 3 * k, t)) return false;
		if (!near("split", "the point of a piece", at, p.root.at(u), k + p.err, t) || !near("split", "the tangent of a piece", tan, p.root.d1(u) * w, 3 * k + 6 * p.err, t)) return false;
		// the end tangents
		if (!near("ends", "the tangent r1", p.b.r1(), own.d1(0), k, 0) || !near("ends", "the tangent r4", p.b.r4(), own.d1(1), k, 1)) return false;
		// the same curve from its weights
		ctr(WEIGHTS);
		V q = p.b.p1() * B::hp1(t) + p.b.p2() * B::hp2(t) + p.b.p3() * B::hp3(t) + p.b.p4() * B::hp4(t), dq = p.b.p1() * B::dhp1(t) + p.b.p2() * B::dhp2(t) + p.b.p3() * B::dhp3(t) + p.b.p4() * B::dhp4(t);
		if (!near("weights", "the weighted sum", q, own.at(t), k, t) || !near("weights", "the weighted tangent", dq, own.d1(t), 3 * k, t)) return false;
		// and in the other representation
		ctr(HERMITE);
		typedef HermiteSplineSegment3<R> H;
		H h(p.b.p1(), p.b.p4(), p.b.r1(), p.b.r4()), h2;
		h2.set(h.p1(), h.p4(), h.r1(), h.r4());
		if (!near("hermite", "the Hermite point", h2.pointAt(t), own.at(t), 3 * k, t) || !near("hermite", "the Hermite tangent", h2.tangentAt(t), own.d1(t), 6 * k, t)) return false;
		V hq = h.p1() * H::hp1(t) + h.p4() * H::hp4(t) + h.r1() * H::hr1(t) + h.r4() * H::hr4(t), hdq = h.p1() * H::dhp1(t) + h.p4() * H::dhp4(t) + h.r1() * H::dhr1(t) + h.r4() * H::dhr4(t);
		if (!near("hermite", "the weighted Hermite point", hq, own.at(t), 3 * k, t) || !near("hermite", "the weighted Hermite tangent", hdq, own.d1(t), 6 * k, t)) return false;
		return frame(p, own, t);
	}
	bool frame(const Piece& p, const C3& own, R t)
	{
		Mat3<R> f;
		bool ok = p.b.frenetFrameAt(f, t);
		L S = own.size();
		L3 T = own.d1(t), D = own.d2(t), X = T.cross(D);
		L eT = 64 * eps * S, eD = 128 * eps * S, eX = T.len() * eD + D.len() * eT + eT * eD;
		bool sure = S > 0 && T.len() > 64 * eT && X.len() > 64 * eX && X.len() > 1e-14L;
		ev(ok);
		if (!ok) { ctr(NOFRAME); if (sure) { rep_violation("frame", "no Frenet frame at %.9Lg of a curve with tangent %s and second derivative %s", (L)t, num(T), num(D)); return false; } return true; }
		ctr(FRAMES);
		LM F = LM::of(f);
		if (T.len() > 64 * eT && !near("frame", "the tangent of the Frenet frame", f.y, T.unit(), 8 * eT / T.len() + 16 * eps, t)) return false;
		if (!sure) return true;
		L3 Bn = X.unit(), N = Bn.cross(T.unit());
		L tol = 8 * (eX / X.len() + eT / T.len()) + 16 * eps;
		return near("frame", "the binormal of the Frenet frame", f.x, Bn, tol, t) && near("frame", "the normal of the Frenet frame", f.z, N, tol, t);
	}
	bool lengths(const Piece& p, int steps)
	{
		ctr(LENGTHS);
		C3 own = c3(p.b);
		L S = own.size(), sum = 0;
		for (int i = 0; i < steps; i++) sum += (own.at((L)(i + 1) / steps) - own.at((L)i / steps)).len();
		L got = steps == 10 ? p.b.length() : p.b.length(steps), n = steps;
		evd(got);
		// the forward differences lose up to a cube of the number of steps
		L tol = 64 * eps * S * n * n;
		if (!(fabsl(got - sum) <= tol)) { rep_violation("length", "the length in %d steps is %.9Lg, not %.9Lg (tolerance %.3Lg)", steps, got, sum, tol); return false; }
		return true;
	}
	bool same(const V& a, const V& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
	bool cut(Piece& p, Piece& q, R a)
	{
		ctr(SPLITS);
		if (a == 0 || a == 1) ctr(ENDSPLITS);
		if (p.depth > 4) ctr(DEEP);
		B s, e;
		p.b.split(a, s, e);
		if (!same(s.p1(), p.b.p1()) || !same(e.p4(), p.b.p4())) { rep_violation("ends", "splitting at %.9Lg moves the ends of the curve", (L)a); return false; }
		if (!((L3::of(s.p4()) - L3::of(e.p1())).maxabs() <= 16 * eps * c3(p.b).size())) { rep_violation("ends", "splitting at %.9Lg leaves a gap", (L)a); return false; }
		L mid = p.u0 + (p.u1 - p.u0) * a, err = p.err + 64 * eps * c3(p.b).size();
		Piece left = p, right = p;
		left.b = s; left.u1 = mid; left.err = err; left.depth++;
		right.b = e; right.u0 = mid; right.err = err; right.depth++;
		p = left; q = right;
		p.on = q.on = true;
		return true;
	}
	bool build(const Spline& s)
	{
		std::vector<V> w;
		for (auto& kv : s.way) w.push_back(kv.second);
		int n = (int)w.size();
		if (n < 2) return true;
		ctr(BUILDS);
		if (n == 2) ctr(TWO);
		ctr(s.kind == 0 ? NATURAL : s.kind == 1 ? CLAMPED : CLOSED);
		int segs = s.kind == 2 ? n : n - 1;
		std::unique_ptr<V[]> p2(new V[segs]), p3(new V[segs]);
		bool ok = s.kind == 0 ? SplineSolver3<R>::naturalBezierSpline(n, w.data(), p2.get(), p3.get()) : s.kind == 1 ? SplineSolver3<R>::bezierSpline(n, w.data(), s.a, s.b, p2.get(), p3.get()) : SplineSolver3<R>::closedBezierSpline(n, w.data(), p2.get(), p3.get());
		static const char* const NAME[] = { "natural", "clamped", "closed" };
		if (!ok) { rep_violation("build", "a %s spline through %d points is refused", NAME[s.kind], n); return false; }
		std::vector<C3> c(segs);
		L S = 0;
		for (int i = 0; i < segs; i++)
		{
			c[i].p[0] = L3::of(w[i]); c[i].p[1] = L3::of(p2[i]); c[i].p[2] = L3::of(p3[i]); c[i].p[3] = L3::of(w[(i + 1) % n]);
			ev3(c[i].p[1]); ev3(c[i].p[2]);
			S = fmaxl(S, c[i].size());
		}
		L way = 0;
		for (auto& v : w) way = fmaxl(way, L3::of(v).maxabs());
		if (s.kind == 1) way = fmaxl(way, fmaxl(L3::of(s.a).maxabs(), L3::of(s.b).maxabs()));
		if (!(S <= 16 * way)) { rep_violation("build", "a %s spline through %d points no larger than %.9Lg has a control point of size %.9Lg", NAME[s.kind], n, way, S); return false; }
		L tol = 512 * eps * way;
		int joints = s.kind == 2 ? n : n - 2;
		for (int i = 0; i < joints; i++)
		{
			const C3 &a = c[i], &b = c[(i + 1) % segs];
			ctr(JOINTS);
			if (!((a.d1(1) - b.d1(0)).maxabs() <= tol)) { rep_violation("smooth", "a %s spline through %d points has tangents %s and %s at joint %d", NAME[s.kind], n, num(a.d1(1)), num(b.d1(0)), i + 1); return false; }
			if (!((a.d2(1) - b.d2(0)).maxabs() <= 2 * tol)) { rep_violation("smooth", "a %s spline through %d points has second derivatives %s and %s at joint %d", NAME[s.kind], n, num(a.d2(1)), num(b.d2(0)), i + 1); return false; }
		}
		if (s.kind == 0 && !(c[0].d2(0).maxabs() <= 2 * tol && c[segs - 1].d2(1).maxabs() <= 2 * tol)) { rep_violation("ends", "a natural spline through %d points has second derivatives %s and %s at its ends", n, num(c[0].d2(0)), num(c[segs - 1].d2(1))); return false; }
		if (s.kind == 1 && !((c[0].p[1] - L3::of(s.a)).maxabs() <= 8 * eps * way && same(p3[segs - 1], s.b))) { rep_violation("ends", "a clamped spline through %d points has end control points %s and %s, not %s and %s", n, num(c[0].p[1]), num(c[segs - 1].p[2]), num(L3::of(s.a)), num(L3::of(s.b))); return false; }
		// one of its segments lives on as a curve
		return true;
	}
	V point(const Step& st, int at, int sc)
	{
		R unit = (R)ldexp(1, sc);
		return V((R)fx(st.arg(at)) * unit, (R)fx(st.arg(at + 1)) * unit, (R)fx(st.arg(at + 2)) * unit);
	}
	void run(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			int i = (int)md(st.arg(0), NP);
			if (st.k == "curve")
			{
				Piece& c = piece[i];
				c = Piece(); c.on = true;
				int sc = (int)md(st.arg(1), 21) - 10;
				V v[4];
				for (int k = 0; k < 4; k++) v[k] = point(st, 3 + 3 * k, sc);
				switch (md(st.arg(2), 8))
				{
				case 0: v[1] = v[0]; break;
				case 1: v[2] = v[3]; break;
				case 2: v[3] = v[0]; break;
				case 3: v[1] = v[0] + (v[3] - v[0]) / R(4); v[2] = v[0] + (v[3] - v[0]) / R(2); break; // straight
				case 4: for (auto& x : v) x.z = 0; break;
				default: break;
				}
				if (st.arg(0) & 16) c.b.set(v[0], v[1], v[2], v[3]); else c.b = B(v[0], v[1], v[2], v[3]);
				c.root = c3(c.b);
				ctr(ROOTS);
			}
			else if (st.k == "split")
			{
				int j = (int)md(st.arg(1), NP);
				if (!piece[i].on || i == j || piece[i].depth > 12) continue;
				R a = (R)((double)md(st.arg(2), 4097) / 4096);
				if (st.arg(3) == 1) a = 0; if (st.arg(3) == 2) a = 1; if (st.arg(3) == 3) a = R(0.5); if (st.arg(3) == 4) a = R(1) / R(3);
				if (!cut(piece[i], piece[j], a)) return;
			}
			else if (st.k == "sample")
			{
				if (!piece[i].on) continue;
				R t = (R)((double)md(st.arg(1), 4097) / 4096);
				if (st.arg(2) == 1) t = 0; if (st.arg(2) == 2) t = 1; if (st.arg(2) == 3) t = R(1) / R(3); if (st.arg(2) == 4) t = R(0.5);
				g_sh->simtime_us += (u64)((double)t * 1000000);
				if (!sample(piece[i], t)) return;
			}
			else if (st.k == "length") { if (piece[i].on && !lengths(piece[i], (int)md(st.arg(1), 10) == 0 ? 10 : 1 + (int)md(st.arg(1), 40))) return; }
			else if (st.k == "hermite")
			{
				// a piece is rebuilt from its Hermite form
				if (!piece[i].on) continue;
				B& b = piece[i].b;
				HermiteSplineSegment3<R> h(b.p1(), b.p4(), b.r1(), b.r4());
				ctr(EXTRA);
				piece[i].err += 32 * eps * c3(b).size();
				b.set(h.p1(), h.p1() + h.r1() / R(3), h.p4() - h.r4() / R(3), h.p4());
			}
			else if (st.k == "spline") { Spline& s = spline[md(st.arg(0), NS)]; s = Spline(); s.on = true; s.kind = (int)md(st.arg(1), 3); shape(s.kind); int sc = (int)md(st.arg(2), 21) - 10; s.a = point(st, 3, sc); s.b = point(st, 6, sc); }
			else if (st.k == "way")
			{
				Spline& s = spline[md(st.arg(0), NS)];
				if (!s.on) continue;
				int k = (int)md(st.arg(1), MAXW);
				ctr(DELIVER);
				if (s.way.count(k)) ctr(DUPS);
				if (!s.way.empty() && s.way.rbegin()->first > k) ctr(LATE);
				s.way[k] = point(st, 3, (int)md(st.arg(2), 21) - 10);
				if (!build(s)) return;
			}
			else if (st.k == "burst")
			{
				// many way points at once, in a scattered order
				Spline& s = spline[md(st.arg(0), NS)];
				if (!s.on) continue;
				int n = (int)md(st.arg(1), 40), slots = n == 39 && md(st.arg(5), 4) == 0 ? MANYW : MAXW;
				if (slots == MANYW) { ctr(MANY); n = 40 + (int)md(st.arg(4), s.kind == 2 ? 80 : 300); }
				i64 x = st.arg(3), y = st.arg(4), z = st.arg(5);
				for (int k = 0; k < n; k++)
				{
					x = (x * 75 + 74) % 65537; y = (y * 75 + 174) % 65537; z = (z * 75 + 274) % 65537;
					Step w; w.a = { 0, 0, 0, x / 2, y / 2, z / 2 };
					int at = (int)md(st.arg(6) + 7 * k, slots);
					ctr(DELIVER);
					if (s.way.count(at)) ctr(DUPS);
					s.way[at] = point(w, 3, (int)md(st.arg(2), 21) - 10);
				}
				if (!build(s)) return;
			}
			else if (st.k == "adopt")
			{
				// a segment of the spline becomes a curve of its own
				Spline& s = spline[md(st.arg(1), NS)];
				if (!s.on || s.way.size() < 2 || s.kind != 0) continue;
				std::vector<V> w; for (auto& kv : s.way) w.push_back(kv.second);
				int n = (int)w.size(), k = (int)md(st.arg(2), n - 1);
				std::vector<V> p2(n - 1), p3(n - 1);
				SplineSolver3<R>::naturalBezierSpline(n, w.data(), p2.data(), p3.data());
				Piece& c = piece[i];
				c = Piece(); c.on = true; c.b.set(w[k], p2[k], p3[k], w[k + 1]); c.root = c3(c.b);
			}
			else if (st.k == "save") { ctr(SAVES); for (int k = 0; k < NP; k++) spiece[k] = piece[k]; for (int k = 0; k < NS; k++) sspline[k] = spline[k]; }
			else if (st.k == "crash")
			{
				ctr(CRASHES);
				for (int k = 0; k < NP; k++) piece[k] = spiece[k];
				for (int k = 0; k < NS; k++) { spline[k] = sspline[k]; if (spline[k].on && !build(spline[k])) return; }
			}
		}
	}
};
}
const char* const names_C22[] = { "curves", "splits", "splits at an end", "rebuilds from the Hermite form", "splits of deep pieces", "points sampled", "points sampled at an end", "Hermite replicas compared", "weight sums compared", "Frenet frames", "Frenet frames refused", "lengths", "splines built", "splines through two points", "closed splines", "clamped splines", "natural splines", "way points delivered", "way points replaced", "way points delivered late", "joints checked", "checkpoints", "crashes with restore", "hundreds of way points at once", nullptr };
void gen_C22(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	int n = (int)r.range(8, tier ? 100 : 50), np = (int)r.range(1, NP);
	int sc = r.chance(0.6) ? 10 : (int)r.range(0, 20), ways = (int)r.range(2, r.chance(0.3) ? 24 : 6);
	auto any = [&]() { return r.chance(0.1) ? 0 : r.range(-(1 << 14), 1 << 14); };
	auto curve = [&](int i) { Step s; p.add("curve", { i + 16 * r.range(0, 1), sc, r.range(0, 12), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any(), any() }); };
	auto spline = [&](int i) { p.add("spline", { i, r.range(0, 2), sc, any(), any(), any(), any(), any(), any() }); };
	curve(0); spline(0); spline(1);
	p.add("save", { 0 });
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		int a = (int)r.range(0, np - 1);
		if (u < 0.06) curve(a);
		else if (u < 0.26) p.add("split", { r.chance(0.5) ? 0 : a, r.range(0, np - 1), r.range(0, 4096), r.chance(0.3) ? r.range(1, 4) : 0 });
		else if (u < 0.46) p.add("sample", { a, r.range(0, 4096), r.chance(0.3) ? r.range(1, 4) : 0 });
		else if (u < 0.52) p.add("length", { a, r.range(0, 100) });
		else if (u < 0.56) p.add("hermite", { a });
		else if (u < 0.59) spline((int)r.range(0, 1));
		else if (u < 0.62) p.add("burst", { r.range(0, 1), r.range(0, 39), sc, r.range(0, 65536), r.range(0, 65536), r.range(0, 65536), r.range(0, 63) });
		else if (u < 0.87) p.add("way", { r.range(0, 1), r.range(0, ways - 1), sc, any(), any(), any() });
		else if (u < 0.90) p.add("adopt", { a, r.range(0, 1), r.range(0, MAXW) });
		else if (u < 0.95) p.add("save", { 0 });
		else p.add("crash", { 0 });
	}
}
void exec_C22(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<double>)->run(p); else (new World<float>)->run(p);
}
