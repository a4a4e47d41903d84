// C18: bounding volumes that move, scale, grow, merge, clip and change representation, against exact intervals.
#include "h.h"
using namespace mathlib;
namespace {
enum { OPS, MOVES, SCALES, GROWTHS, MERGES, CLIPS, DISJOINT, CONVERTS, CASTS, UNDOS, SAVES, CRASHES, PROBES, EDGE, PAIRS, TOUCH, EXACT, MEASURES, NB = 6 };

template <class R> struct T2
{
	typedef Vec2<R> V; typedef AABB2<R> A; typedef CAABB2<R> C; typedef Circle<R> S; enum { D = 2 };
	static V mk(const L* v) { return V((R)v[0], (R)v[1]); }
	static void get(const V& v, L* o) { o[0] = v.x; o[1] = v.y; }
	template <class B> static S outer(const B& a) { return a.outerCircle(); }
	template <class B> static S inner(const B& a) { return a.innerCircle(); }
	template <class B> static R volume(const B& a) { return a.area(); }
	template <class B> static bool holds(const B&, const S&, bool& known) { known = false; return false; }
	static C centred(const A& a, int how) { if (how & 1) return C::fromInfSup(a.inf, a.sup); C c; c.set(a); return c; }
	static const char* name(int k) { static const char* const n[] = { "AABB2", "CAABB2", "Circle" }; return n[k]; }
};
template <class R> struct T3
{
	typedef Vec3<R> V; typedef AABB3<R> A; typedef CAABB3<R> C; typedef Sphere<R> S; enum { D = 3 };
	static V mk(const L* v) { return V((R)v[0], (R)v[1], (R)v[2]); }
	static void get(const V& v, L* o) { o[0] = v.x; o[1] = v.y; o[2] = v.z; }
	template <class B> static S outer(const B& a) { return a.outerSphere(); }
	template <class B> static S inner(const B& a) { return a.innerSphere(); }
	template <class B> static R volume(const B& a) { return a.volume(); }
	template <class B> static bool holds(const B& b, const S& s, bool& known) { known = true; return b.contains(s); }
	static C centred(const A& a, int how) { if (how & 1) return C::from(a); C c; c.set(a); return c; }
	static const char* name(int k) { static const char* const n[] = { "AABB3", "CAABB3", "Sphere" }; return n[k]; }
};

template <class R, class T> struct World
{
	typedef typename T::V V; typedef typename T::A A; typedef typename T::C C; typedef typename T::S S;
	enum { D = T::D };
	struct Body
	{
		bool on = false;
		int kind = 0;              // 0 box, 1 centred box, 2 sphere or circle
		A a; C c; S s;
		L lo[3], hi[3];            // what it should be
		L mid[3], rad = 0;
		L err = 0;
		bool exact = false;
		int last = 0; L t[3], k = 1;   // the step an undo would undo
	};
	Body b[NB], saved[NB];
	L eps = epsOf<R>(), tiny = 4 * sqrtl((L)std::numeric_limits<R>::min());   // squares underflow below tiny

	// present extent of a body, from its own elements
	void bounds(const Body& x, L* lo, L* hi) const
	{
		L p[3], q[3];
		if (x.kind == 0) { T::get(x.a.inf, lo); T::get(x.a.sup, hi); }
		else if (x.kind == 1) { T::get(x.c.center, p); T::get(x.c.extents, q); for (int i = 0; i < D; i++) { lo[i] = p[i] - q[i]; hi[i] = p[i] + q[i]; } }
		else { T::get(x.s.center, p); for (int i = 0; i < D; i++) { lo[i] = p[i] - x.s.radius; hi[i] = p[i] + x.s.radius; } }
	}
	L mag(const Body& x) const
	{
		L m = 0;
		for (int i = 0; i < D; i++) m = x.kind == 2 ? fmaxl(m, fabsl(x.mid[i]) + x.rad) : fmaxl(m, fmaxl(fabsl(x.lo[i]), fabsl(x.hi[i])));
		return m;
	}
	static bool grid(L v) { return v * 4 == floorl(v * 4) && fabsl(v) <= 128; }
	bool onGrid(const Body& x) const
	{
		for (int i = 0; i < D; i++)
		{
			if (x.kind == 2) { if (!grid(x.mid[i])) return false; }
			else if (!grid(x.lo[i]) || !grid(x.hi[i]) || !grid((x.hi[i] - x.lo[i]) / 2)) return false;
		}
		return x.kind != 2 || grid(x.rad);
	}
	// after an operation: grow the error bound and compare the elements with the reference
	bool settle(Body& x, const char* what, L before = 0)
	{
		ctr(OPS);
		if (x.exact && onGrid(x)) { x.err = 0; ctr(EXACT); }
		else { x.exact = false; x.err += tiny + eps * 8 * fmaxl(mag(x), before); }
		L e[3], f[3];
		bool ok = true;
		if (x.kind == 0)
		{
			T::get(x.a.inf, e); T::get(x.a.sup, f);
			for (int i = 0; i < D; i++) ok = ok && fabsl(e[i] - x.lo[i]) <= x.err && fabsl(f[i] - x.hi[i]) <= x.err;
		}
		else if (x.kind == 1)
		{
			T::get(x.c.center, e); T::get(x.c.extents, f);
			for (int i = 0; i < D; i++) ok = ok && fabsl(e[i] - (x.lo[i] + x.hi[i]) / 2) <= x.err && fabsl(f[i] - (x.hi[i] - x.lo[i]) / 2) <= x.err;
		}
		else
		{
			T::get(x.s.center, e); f[0] = x.s.radius;
			for (int i = 0; i < D; i++) ok = ok && fabsl(e[i] - x.mid[i]) <= x.err;
			ok = ok && fabsl(f[0] - x.rad) <= x.err;
		}
		for (int i = 0; i < D; i++) evd(e[i]);
		if (!ok)
		{
			L lo[3], hi[3]; bounds(x, lo, hi);
			rep_violation("state", "%s after %s spans (%.9Lg, %.9Lg, ..) to (%.9Lg, %.9Lg, ..), its history says (%.9Lg, %.9Lg, ..) to (%.9Lg, %.9Lg, ..) (tolerance %.3Lg)", T::name(x.kind), what, lo[0], lo[1], hi[0], hi[1],
				x.kind == 2 ? x.mid[0] - x.rad : x.lo[0], x.kind == 2 ? x.mid[1] - x.rad : x.lo[1], x.kind == 2 ? x.mid[0] + x.rad : x.hi[0], x.kind == 2 ? x.mid[1] + x.rad : x.hi[1], x.err);
		}
		return ok;
	}
	bool close(const char* what, const Body& x, L got, L want, L tol)
	{
		evd(got);
		if (fabsl(got - want) <= tol) return true;
		L lo[3], hi[3]; bounds(x, lo, hi);
		rep_violation("measure", "%s of a %s spanning (%.9Lg, %.9Lg, ..) to (%.9Lg, %.9Lg, ..) is %.9Lg, not %.9Lg (tolerance %.3Lg)", what, T::name(x.kind), lo[0], lo[1], hi[0], hi[1], got, want, tol);
		return false;
	}
	bool closeV(const char* what, const Body& x, const V& got, const L* want, L tol)
	{
		L g[3]; T::get(got, g);
		for (int i = 0; i < D; i++) if (!close(what, x, g[i], want[i], tol)) return false;
		return true;
	}
	bool answer(const char* what, const Body& x, bool got, L margin, L tol)
	{
		ctr(PROBES);
		if (fabsl(margin) <= tol) ctr(EDGE);
		ev(got);
		bool want = margin >= 0;
		if (got == want) return true;
		if (tol > 0 && fabsl(margin) <= tol) return true;
		L lo[3], hi[3]; bounds(x, lo, hi);
		rep_violation("answer", "a %s spanning (%.9Lg, %.9Lg, %.9Lg) to (%.9Lg, %.9Lg, %.9Lg) says %d to %s, the margin is %.6Lg (tolerance %.3Lg)", T::name(x.kind), lo[0], lo[1], D > 2 ? lo[2] : 0, hi[0], hi[1], D > 2 ? hi[2] : 0, (int)got, what, margin, tol);
		return false;
	}
	template <class B> bool boxMeasures(const Body& x, const B& box, const V& center, const V& extents)
	{
		L lo[3], hi[3], c[3], e[3], z[3], prod = 1, m = 0, d2 = 0, least = HUGE_VALL;
		bounds(x, lo, hi);
		bool null = true;
		for (int i = 0; i < D; i++)
		{
			c[i] = (lo[i] + hi[i]) / 2; z[i] = hi[i] - lo[i]; e[i] = z[i] / 2;
			prod *= z[i]; m = fmaxl(m, fmaxl(fabsl(lo[i]), fabsl(hi[i]))); d2 += e[i] * e[i]; least = fminl(least, fabsl(e[i]));
			null = null && z[i] == 0;
		}
		L tol = x.exact ? 0 : tiny + 8 * eps * m;
		ctr(MEASURES);
		if (!closeV("center", x, center, c, tol) || !closeV("extents", x, extents, e, tol) || !closeV("size", x, box.size(), z, tol)) return false;
		if (!close("volume or area", x, T::volume(box), prod, 32 * eps * fabsl(prod) + tiny)) return false;
		if (box.isNull() != null) { rep_violation("measure", "a %s spanning (%.9Lg, %.9Lg, ..) to (%.9Lg, %.9Lg, ..) has isNull() = %d", T::name(x.kind), lo[0], lo[1], hi[0], hi[1], (int)!null); return false; }
		S in = T::inner(box), out = T::outer(box);
		if (!closeV("centre of the inner sphere", x, in.center, c, tol) || !close("radius of the inner sphere", x, in.radius, least, 8 * eps * least + tol)) return false;
		if (!closeV("centre of the outer sphere", x, out.center, c, tol) || !close("radius of the outer sphere", x, out.radius, sqrtl(d2), 16 * eps * sqrtl(d2) + tol)) return false;
		return true;
	}
	bool measures(const Body& x, const L* t)
	{
		L lo[3], hi[3], want[3], m = 0;
		bounds(x, lo, hi);
		for (int i = 0; i < D; i++) m = fmaxl(m, fmaxl(fabsl(lo[i]), fabsl(hi[i])) * (2 + fabsl(t[i])));
		if (x.kind == 0)
		{
			if (!boxMeasures(x, x.a, x.a.center(), x.a.extents())) return false;
			for (int i = 0; i < D; i++) want[i] = lo[i] + (hi[i] - lo[i]) * t[i];
			if (!closeV("pointAt", x, x.a.pointAt(T::mk(t)), want, 8 * eps * m)) return false;
			A same = x.a; Body y = x; PUT(y.a.sup, y.a.sup + V(y.a.sup)); bool eq = y.a.sup == x.a.sup;
			if (!(same == x.a) || (same != x.a) || (y.a == x.a) != eq || (y.a != x.a) == eq) { rep_violation("measure", "comparison of boxes disagrees with their corners"); return false; }
		}
		else if (x.kind == 1)
		{
			if (!boxMeasures(x, x.c, x.c.center, x.c.extents)) return false;
			if (!closeV("inf", x, x.c.inf(), lo, x.exact ? 0 : 4 * eps * m) || !closeV("sup", x, x.c.sup(), hi, x.exact ? 0 : 4 * eps * m)) return false;
			for (int i = 0; i < D; i++) want[i] = (lo[i] + hi[i]) / 2 + (hi[i] - lo[i]) / 2 * t[i];
			if (!closeV("pointAt", x, x.c.pointAt(T::mk(t)), want, 8 * eps * m)) return false;
			C same = x.c, y = x.c; PUT(y.extents, y.extents + y.extents); bool eq = y.extents == x.c.extents;
			if (!(same == x.c) || (same != x.c) || (y == x.c) != eq || (y != x.c) == eq) { rep_violation("measure", "comparison of centred boxes disagrees with their elements"); return false; }
		}
		else
		{
			const R* d = x.s.data();
			L c[3]; T::get(x.s.center, c);
			for (int i = 0; i < D; i++) if (d[i] != (R)c[i]) { rep_violation("measure", "data() of a %s does not start at its centre", T::name(2)); return false; }
			if (d[D] != x.s.radius) { rep_violation("measure", "data() of a %s does not end with its radius", T::name(2)); return false; }
			S same = x.s, y = x.s; y.radius += 1; bool eq = y.radius == x.s.radius;
			if (!(same == x.s) || (same != x.s) || (y == x.s) != eq || (y != x.s) == eq) { rep_violation("measure", "comparison of spheres disagrees with their elements"); return false; }
		}
		return true;
	}
	// a probe point: per axis a place relative to the body
	void probe(const Body& x, const Step& st, int o, L* p) const
	{
		L lo[3], hi[3];
		bounds(x, lo, hi);
		for (int i = 0; i < D; i++)
		{
			L w = hi[i] - lo[i], f = fx(st.arg(o + 3 + i)) ;
			R v;
			switch ((int)md(st.arg(o + i), 9))
			{
			case 0: v = (R)lo[i]; break;
			case 1: v = (R)hi[i]; break;
			case 2: v = std::nextafter((R)lo[i], R(-1e30)); break;
			case 3: v = std::nextafter((R)hi[i], R(1e30)); break;
			case 4: v = (R)(lo[i] - fabsl(f)); break;
			case 5: v = (R)(hi[i] + fabsl(f)); break;
			case 6: v = (R)(lo[i] + w / 2); break;
			default: v = (R)(lo[i] + w * (L)md(st.arg(o + 3 + i), 4097) / 4096); break;
			}
			p[i] = v;
		}
	}
	bool pointQuery(const Body& x, const L* p)
	{
		V v = T::mk(p);
		L lo[3], hi[3], m = 0, margin = HUGE_VALL;
		bounds(x, lo, hi);
		bool onG = x.exact;
		for (int i = 0; i < D; i++) { margin = fminl(margin, fminl(p[i] - lo[i], hi[i] - p[i])); m = fmaxl(m, fmaxl(fabsl(p[i]), fmaxl(fabsl(lo[i]), fabsl(hi[i])))); onG = onG && grid(p[i]); }
		if (x.kind == 0) return answer("contains a point", x, x.a.contains(v), margin, onG ? 0 : 4 * eps * m);
		if (x.kind == 1) return answer("contains a point", x, x.c.contains(v), margin, onG ? 0 : 4 * eps * m);
		L c[3], d2 = 0; T::get(x.s.center, c);
		int axes = 0;
		for (int i = 0; i < D; i++) { d2 += (p[i] - c[i]) * (p[i] - c[i]); axes += p[i] != c[i]; }
		return answer("contains a point", x, x.s.contains(v), x.s.radius - sqrtl(d2), onG && axes < 2 ? 0 : tiny + 8 * eps * (sqrtl(d2) + x.s.radius));
	}
	bool pairQuery(const Body& x, const Body& y)
	{
		ctr(PAIRS);
		bool ex = x.exact && y.exact;
		L lo[3], hi[3], l2[3], h2[3], in = HUGE_VALL, over = HUGE_VALL, m = 0;
		bounds(x, lo, hi); bounds(y, l2, h2);
		for (int i = 0; i < D; i++)
		{
			in = fminl(in, fminl(l2[i] - lo[i], hi[i] - h2[i]));
			over = fminl(over, fminl(hi[i] - l2[i], h2[i] - lo[i]));
			m = fmaxl(m, fmaxl(fmaxl(fabsl(lo[i]), fabsl(hi[i])), fmaxl(fabsl(l2[i]), fabsl(h2[i]))));
		}
		if (over == 0) ctr(TOUCH);
		L tol = ex ? 0 : 8 * eps * m;
		if (x.kind == 0 && y.kind == 0) return answer("contains a box", x, x.a.contains(y.a), in, tol) && answer("intersects a box", x, x.a.intersects(y.a), over, tol) && answer("intersects a box", y, y.a.intersects(x.a), over, tol);
		if (x.kind == 1 && y.kind == 1) return answer("contains a centred box", x, x.c.contains(y.c), in, tol) && answer("intersects a centred box", x, x.c.intersects(y.c), over, tol) && answer("intersects a centred box", y, y.c.intersects(x.c), over, tol);
		if (x.kind < 2 && y.kind == 2)
		{
			bool known, got = x.kind == 0 ? T::holds(x.a, y.s, known) : T::holds(x.c, y.s, known);
			return !known || answer("contains a sphere", x, got, in, tol);
		}
		if (x.kind == 2 && y.kind == 2)
		{
			L c[3], d[3], d2 = 0; T::get(x.s.center, c); T::get(y.s.center, d);
			int axes = 0;
			for (int i = 0; i < D; i++) { d2 += (c[i] - d[i]) * (c[i] - d[i]); axes += c[i] != d[i]; }
			L dist = sqrtl(d2), r1 = x.s.radius, r2 = y.s.radius;
			tol = ex && axes < 2 ? 0 : tiny + 16 * eps * (dist + r1 + r2);
			if (!answer("contains a sphere", x, x.s.contains(y.s), r1 - r2 - dist, tol) || !answer("intersects a sphere", x, x.s.intersects(y.s), r1 + r2 - dist, tol)) return false;
			V hit = T::mk(c); R depth = R(-7);
			bool got = x.s.intersects(hit, depth, y.s);
			if (!answer("intersects a sphere (with hit)", x, got, r1 + r2 - dist, tol)) return false;
			if (got)
			{
				if (!close("depth of an overlap", x, depth, r1 + r2 - dist, tiny + 32 * eps * (dist + r1 + r2))) return false;
				if (dist > 1e-6L * (r1 + r2) && dist > 1e-12L)
				{
					L want[3], mm = 0;
					for (int i = 0; i < D; i++) { want[i] = d[i] + (c[i] - d[i]) / dist * r2; mm = fmaxl(mm, fabsl(d[i])); }
					if (!closeV("hit point of an overlap", x, hit, want, tiny + 16 * eps * (mm + r2))) return false;
				}
			}
		}
		return true;
	}
	void apply(Body& x, int last, int how, const L* t, L k)
	{
		L before = mag(x);
		V v = T::mk(t);
		L neg[3]; for (int i = 0; i < D; i++) { neg[i] = -t[i]; before = fmaxl(before, fabsl(t[i])); }
		V w = T::mk(neg);
		bool byInverse = how & 4;   // division, or the opposite operation with the opposite operand
		if (last == 1)
		{
			ctr(MOVES);
			for (int i = 0; i < D; i++) { x.lo[i] += t[i]; x.hi[i] += t[i]; x.mid[i] += t[i]; }
#define MOVE(o) if (byInverse) { if (how & 1) o -= w; else PUT(o, o - w); } else { if (how & 1) o += v; else PUT(o, o + v); }
			if (x.kind == 0) { MOVE(x.a) } else if (x.kind == 1) { MOVE(x.c) } else { MOVE(x.s) }
			settle(x, "a move", before);
			return;
		}
		ctr(SCALES);
		for (int i = 0; i < D; i++) { L c = (x.lo[i] + x.hi[i]) / 2, e = (x.hi[i] - x.lo[i]) / 2 * k; x.lo[i] = c - e; x.hi[i] = c + e; }
		x.rad *= k;
		x.err *= fmaxl(1, k);
		R f = (R)k, g = (R)(1 / k);
		if (!(k > 0)) byInverse = false;
#define SCALE(o) if (byInverse) { if (how & 1) o /= g; else PUT(o, o / g); } else { if (how & 1) o *= f; else PUT(o, o * f); }
		if (x.kind == 0) { if (!byInverse && (how & 2)) x.a.scaleCentered(f); else { SCALE(x.a) } } else if (x.kind == 1) { SCALE(x.c) } else { SCALE(x.s) }
		settle(x, "a scaling", before);
	}
	template <class Q> void castThrough(Body& x)
	{
		if (x.kind == 0) PUT(x.a, x.a.template cast<Q>().template cast<R>());
		else if (x.kind == 1) PUT(x.c, x.c.template cast<Q>().template cast<R>());
		else PUT(x.s, x.s.template cast<Q>().template cast<R>());
		if (!x.exact && sizeof(Q) < sizeof(R)) x.err += epsOf<Q>() * 2 * mag(x);
	}
	void run(const Plan& p)
	{
		bool exactRun = p.steps[0].arg(2) & 1;
		auto val = [&](i64 a) -> L { return exactRun ? (L)(a % 257) / 4 : (L)(R)fx(a); };
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			Body& x = b[md(st.arg(0), NB)];
			if (st.k == "new")
			{
				int how = (int)md(st.arg(2), 4);
				L u[3], v[3];
				x = Body(); x.on = true; x.kind = (int)md(st.arg(1), 3); x.exact = exactRun;
				shape(x.kind);
				for (int i = 0; i < D; i++) { u[i] = val(st.arg(3 + i)); v[i] = fabsl(val(st.arg(6 + i))); if (exactRun) { u[i] /= 2; u[i] = floorl(u[i]); v[i] = floorl(v[i]); } }
				L c[3];
				for (int i = 0; i < D; i++) { x.lo[i] = u[i]; x.hi[i] = (R)(u[i] + v[i]); c[i] = (x.lo[i] + x.hi[i]) / 2; x.mid[i] = u[i]; }
				x.rad = v[0];
				if (x.kind == 0) { V i = T::mk(x.lo), s = T::mk(x.hi); if (how == 0) x.a.set(i, s); else if (how == 1) x.a = A::from(i, s); else if (how == 2) x.a = A(i, s); else { x.a.set(s); x.a.add(i); } }
				else if (x.kind == 1)
				{
					L z[3]; for (int i = 0; i < D; i++) z[i] = x.hi[i] - x.lo[i];
					V m = T::mk(c), s = T::mk(z);
					if (how == 0) x.c.set(m, s); else if (how == 1) x.c = C::from(m, s); else if (how == 2) x.c = C(m, s); else x.c = T::centred(A(T::mk(x.lo), T::mk(x.hi)), (int)md(st.arg(2) / 4, 2));
				}
				else { V m = T::mk(u); if (how == 0) x.s.set(m, (R)x.rad); else if (how == 1) x.s = S::from(m, (R)x.rad); else x.s = S(m, (R)x.rad); }
				settle(x, "its creation");
				continue;
			}
			if (!x.on) continue;
			if (st.k == "move")
			{
				L t[3]; for (int i = 0; i < D; i++) t[i] = exactRun ? floorl(val(st.arg(2 + i)) / 4) : (L)(R)fx(st.arg(2 + i));
				if (mag(x) > 1e6L) continue;
				apply(x, 1, (int)md(st.arg(1), 8), t, 1);
				x.last = 1; for (int i = 0; i < D; i++) x.t[i] = t[i];
			}
			else if (st.k == "scale")
			{
				static const L exactK[] = { 0.5L, 2, 1, 0.25L, 4, 0 };
				L k = exactRun || md(st.arg(3), 4) == 0 ? exactK[md(st.arg(2), st.arg(4) % 8 == 0 ? 6 : 5)] : (L)(R)fabsl(fx(md(st.arg(2), 4096) + 1));
				if (mag(x) * fmaxl(1, k) > 1e6L) continue;
				L t[3] = { 0, 0, 0 };
				apply(x, 2, (int)md(st.arg(1), 8), t, k);
				x.last = k > 1e-3L ? 2 : 0; x.k = k;
			}
			else if (st.k == "undo")
			{
				if (!x.last) continue;
				ctr(UNDOS);
				L t[3] = { 0, 0, 0 };
				if (x.last == 1) for (int i = 0; i < D; i++) t[i] = -x.t[i];
				L inv = x.last == 2 ? (L)(R)(1 / x.k) : 1;
				apply(x, x.last, (int)md(st.arg(1), 8), t, inv);
				x.last = 0;
			}
			else if (st.k == "grow")
			{
				if (x.kind == 2) continue;
				ctr(GROWTHS);
				L q[3]; for (int i = 0; i < D; i++) q[i] = exactRun ? floorl(val(st.arg(1 + i))) : (L)(R)fx(st.arg(1 + i));
				if (x.kind == 0) x.a.add(T::mk(q)); else x.c.add(T::mk(q));
				for (int i = 0; i < D; i++) { x.lo[i] = fminl(x.lo[i], q[i]); x.hi[i] = fmaxl(x.hi[i], q[i]); }
				x.last = 0;
				settle(x, "growing around a point");
				if (!rep_violated() && x.kind == 0 && !x.a.contains(T::mk(q))) rep_violation("answer", "a box does not contain the point just added to it");
			}
			else if (st.k == "merge" || st.k == "clip")
			{
				Body &y = b[md(st.arg(1), NB)], &z = b[md(st.arg(2), NB)];
				if (!y.on || x.kind != 0 || y.kind != 0) continue;
				Body n; n.on = true; n.exact = x.exact && y.exact;
				n.err = fmaxl(x.err, y.err);
				if (st.k == "merge")
				{
					ctr(MERGES);
					n.a = A::fromUnion(x.a, y.a);
					for (int i = 0; i < D; i++) { n.lo[i] = fminl(x.lo[i], y.lo[i]); n.hi[i] = fmaxl(x.hi[i], y.hi[i]); n.mid[i] = 0; }
					z = n;
					if (!settle(z, "a union")) return;
					if (!z.a.contains(n.a)) rep_violation("answer", "a box does not contain itself");
				}
				else
				{
					ctr(CLIPS);
					n.a = A::fromIntersection(x.a, y.a);
					L gap = -HUGE_VALL;
					for (int i = 0; i < D; i++) { n.lo[i] = fmaxl(x.lo[i], y.lo[i]); n.hi[i] = fminl(x.hi[i], y.hi[i]); n.mid[i] = 0; gap = fmaxl(gap, n.lo[i] - n.hi[i]); }
					L e = n.exact ? 0 : x.err + y.err;
					bool zero = n.a.inf == V::Zero && n.a.sup == V::Zero;
					if (gap > e || (gap > -e && zero))
					{
						ctr(DISJOINT);
						for (int i = 0; i < D; i++) n.lo[i] = n.hi[i] = 0;
						n.err = 0; n.exact = exactRun;
					}
					z = n;
					settle(z, "an intersection");
				}
			}
			else if (st.k == "convert")
			{
				ctr(CONVERTS);
				int to = (int)md(st.arg(1), 4), how = (int)md(st.arg(2), 4);
				x.last = 0;
				if (x.kind == 2) continue;
				A a0 = x.a; C c0 = x.c;
				if (to <= 1)
				{
					if (x.kind == 0) { x.c = T::centred(a0, how); x.kind = 1; }
					else { if (how & 1) x.a.set(c0); else x.a = A::from(c0); x.kind = 0; }
				}
				else
				{
					L d2 = 0, least = HUGE_VALL, m = mag(x);
					for (int i = 0; i < D; i++) { L e = (x.hi[i] - x.lo[i]) / 2; x.mid[i] = (x.lo[i] + x.hi[i]) / 2; d2 += e * e; least = fminl(least, fabsl(e)); }
					if (to == 2) x.s = x.kind == 0 ? T::outer(a0) : T::outer(c0); else x.s = x.kind == 0 ? T::inner(a0) : T::inner(c0);
					x.rad = to == 2 ? sqrtl(d2) : least;
					x.kind = 2; x.err *= 2; x.exact = false;
					settle(x, "becoming a sphere", m);
					continue;
				}
				settle(x, "a conversion");
			}
			else if (st.k == "cast")
			{
				ctr(CASTS);
				if (sizeof(R) == 4) { Body y = x; castThrough<double>(x); if (memcmp(&y.a, &x.a, sizeof x.a) || memcmp(&y.c, &x.c, sizeof x.c) || memcmp(&y.s, &x.s, sizeof x.s)) { rep_violation("state", "a %s changes when cast to double and back", T::name(x.kind)); return; } }
				else castThrough<float>(x);
				settle(x, "a cast there and back");
			}
			else if (st.k == "save") { ctr(SAVES); for (int i = 0; i < NB; i++) saved[i] = b[i]; }
			else if (st.k == "crash") { ctr(CRASHES); memset((void*)b, 0xA5, sizeof b); for (int i = 0; i < NB; i++) b[i] = saved[i]; }
			else if (st.k == "look")
			{
				L t[3], q[3];
				for (int i = 0; i < D; i++) t[i] = (L)(R)(md(st.arg(8 + i), 4) == 0 ? (L)(md(st.arg(8 + i) / 4, 3) - 1) : (L)md(st.arg(8 + i), 3073) / 1024 - 1);
				if (!measures(x, t)) return;
				probe(x, st, 2, q);
				if (!pointQuery(x, q)) return;
				Body& y = b[md(st.arg(1), NB)];
				if (y.on && &y != &x && !pairQuery(x, y)) return;
			}
			else if (st.k == "beside")
			{
				// a second body placed to touch, enclose or just miss the first
				Body& y = b[md(st.arg(1), NB)];
				if (&y == &x || x.kind == 2) continue;
				L lo[3], hi[3]; bounds(x, lo, hi);
				y = Body(); y.on = true; y.kind = x.kind; y.exact = x.exact;
				for (int i = 0; i < D; i++)
				{
					L w = exactRun ? 2 + 2 * floorl(fabsl(val(st.arg(5 + i))) / 4) : 0.125L + fabsl((L)(R)fx(st.arg(5 + i)));
					switch ((int)md(st.arg(2 + i), 7))
					{
					case 0: y.lo[i] = hi[i]; y.hi[i] = hi[i] + w; break;            // touching
					case 1: y.hi[i] = lo[i]; y.lo[i] = lo[i] - w; break;
					case 2: y.lo[i] = lo[i]; y.hi[i] = hi[i]; break;                // coincident
					case 3: y.lo[i] = lo[i] - w; y.hi[i] = hi[i] + w; break;        // around
					case 4: y.lo[i] = lo[i]; y.hi[i] = hi[i] + w; break;
					case 5: y.lo[i] = hi[i] + w; y.hi[i] = hi[i] + 3 * w; break;    // apart
					default: y.lo[i] = hi[i] - w; y.hi[i] = hi[i] + w; break;
					}
					y.lo[i] = (R)y.lo[i]; y.hi[i] = (R)y.hi[i]; y.mid[i] = 0;
				}
				if (y.kind == 0) y.a = A(T::mk(y.lo), T::mk(y.hi)); else y.c = T::centred(A(T::mk(y.lo), T::mk(y.hi)), (int)md(st.arg(8), 2));
				if (!settle(y, "its creation") || !pairQuery(x, y)) return;
				pairQuery(y, x);
			}
			else if (st.k == "ball")
			{
				// a sphere touching, inside or around another sphere along one axis
				Body& y = b[md(st.arg(1), NB)];
				if (&y == &x || x.kind != 2) continue;
				L c[3]; T::get(x.s.center, c);
				y = Body(); y.on = true; y.kind = 2; y.exact = x.exact;
				L r = x.s.radius, w = exactRun ? floorl(fabsl(val(st.arg(4))) / 4) : fabsl((L)(R)fx(st.arg(4)));
				int ax = (int)md(st.arg(2), D), mode = (int)md(st.arg(3), 5);
				L sign = md(st.arg(3) / 5, 2) ? 1 : -1;
				for (int i = 0; i < D; i++) y.mid[i] = c[i];
				y.rad = w;
				y.mid[ax] = (R)(c[ax] + sign * (mode == 0 ? r + w : mode == 1 ? fabsl(r - w) : mode == 2 ? r + w + 0.25L : mode == 3 ? fabsl(r - w) + 0.25L : w / 2));
				y.s.set(T::mk(y.mid), (R)y.rad);
				if (!settle(y, "its creation") || !pairQuery(x, y)) return;
				pairQuery(y, x);
			}
		}
	}
};
}
const char* const names_C18[] = { "operations", "moves", "scalings", "growths around a point", "unions", "intersections", "intersections of disjoint boxes", "conversions", "casts there and back", "steps undone", "checkpoints", "crashes with restore", "containment and overlap answers", "answers at a boundary", "pairs examined", "touching pairs", "operations compared exactly", "sets of measures", nullptr };
void gen_C18(Plan& p, Rng& r, int tier)
{
	bool exact = r.chance(0.5);
	p.add("type", { r.range(0, 1), r.range(0, 1), exact });
	int bits = (int)r.range(6, 20);
	auto val = [&]() { return r.chance(0.08) ? 0 : r.range(-(1 << bits), 1 << bits); };
	auto any = [&]() { return r.range(0, 1 << 20); };
	int nb = (int)r.range(1, NB);
	int kind = r.chance(0.7) ? (int)r.range(0, 2) : -1;
	auto fresh = [&](int i) { p.add("new", { i, kind >= 0 ? kind : r.range(0, 2), r.range(0, 7), val(), val(), val(), r.chance(0.05) ? 0 : val(), r.chance(0.05) ? 0 : val(), r.chance(0.05) ? 0 : val() }); };
	for (int i = 0; i < nb; i++) fresh(i);
	p.add("save", { 0 });
	int n = (int)r.range(5, tier ? 70 : 35);
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		int a = (int)r.range(0, nb - 1), b = (int)r.range(0, NB - 1);
		if (u < 0.16) p.add("move", { a, r.range(0, 7), val(), val(), val() });
		else if (u < 0.27) p.add("scale", { a, r.range(0, 7), any(), r.range(0, 3), any() });
		else if (u < 0.34) p.add("undo", { a, r.range(0, 7) });
		else if (u < 0.42) p.add("grow", { a, val(), val(), val() });
		else if (u < 0.46) p.add("merge", { a, r.range(0, nb - 1), b });
		else if (u < 0.51) p.add("clip", { a, r.range(0, nb - 1), b });
		else if (u < 0.56) p.add("convert", { a, r.chance(0.75) ? 0 : r.range(2, 3), r.range(0, 3) });
		else if (u < 0.59) p.add("cast", { a });
		else if (u < 0.61) p.add("save", { 0 });
		else if (u < 0.63) p.add("crash", { 0 });
		else if (u < 0.66) fresh(r.chance(0.5) ? a : b);
		else if (u < 0.86) p.add("look", { a, b, any(), any(), any(), val(), val(), val(), any(), any(), any() });
		else if (u < 0.95) p.add("beside", { a, b, any(), any(), any(), val(), val(), val(), any() });
		else p.add("ball", { a, b, any(), any(), val() });
	}
}
void exec_C18(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	int dbl = p.steps[0].arg(0) & 1, three = p.steps[0].arg(1) & 1;
	shape(dbl * 2 + three);
	if (dbl) { if (three) (new World<double, T3<double>>)->run(p); else (new World<double, T2<double>>)->run(p); }
	else if (three) (new World<float, T3<float>>)->run(p); else (new World<float, T2<float>>)->run(p);
}
