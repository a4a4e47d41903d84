// C12: replicas of bounding volumes fed by an unreliable point stream.
#include "h.h"
#include <set>
#include <algorithm>
using namespace mathlib;
namespace {
enum { DELIVER, DUPS, REORDER, BATCH, STRIDED, MERGE, CONVERT, CRASH, FROMLOG, FROMPEER, CHECKS, AGREE, FLOATS, DOUBLES, D2, D3, BUILT, PARTITION };
enum { NR = 5 };

template <class R> Vec2<R> mk2(const L* v) { return Vec2<R>((R)v[0], (R)v[1]); }
template <class R> Vec3<R> mk3(const L* v) { return Vec3<R>((R)v[0], (R)v[1], (R)v[2]); }
inline void get(const Vec2<float>& v, L* o) { o[0] = v.x; o[1] = v.y; o[2] = 0; }
inline void get(const Vec2<double>& v, L* o) { o[0] = v.x; o[1] = v.y; o[2] = 0; }
inline void get(const Vec3<float>& v, L* o) { o[0] = v.x; o[1] = v.y; o[2] = v.z; }
inline void get(const Vec3<double>& v, L* o) { o[0] = v.x; o[1] = v.y; o[2] = v.z; }

template <class R> struct T2
{
	typedef Vec2<R> V; typedef AABB2<R> A; typedef CAABB2<R> C; typedef Circle<R> S; enum { D = 2 };
	static V mk(const L* v) { return mk2<R>(v); }
	static S outer(const A& a) { return a.outerCircle(); }
	static S outerC(const C& a) { return a.outerCircle(); }
	static S inner(const A& a) { return a.innerCircle(); }
	static C fromInfSup(const V& i, const V& s) { return C::fromInfSup(i, s); }
};
template <class R> struct T3
{
	typedef Vec3<R> V; typedef AABB3<R> A; typedef CAABB3<R> C; typedef Sphere<R> S; enum { D = 3 };
	static V mk(const L* v) { return mk3<R>(v); }
	static S outer(const A& a) { return a.outerSphere(); }
	static S outerC(const C& a) { return a.outerSphere(); }
	static C fromInfSup(const V& i, const V& s) { C c; c.set(A(i, s)); return c; }
};

template <class R, class T> struct World
{
	typedef typename T::V V; typedef typename T::A A; typedef typename T::C C; typedef typename T::S S;
	struct Rep
	{
		bool any = false;
		A a;             // exact path: points and box unions only
		C c;             // centred path
		A x;             // a box that has been through conversions
		int ops = 0;     // roundings that c and x may have gone through
		S s;             // built from everything delivered
		std::vector<int> log;  // durable: deliveries in order, duplicates included
		std::set<int> got;
		bool healed = true;
	};
	std::vector<V> pts;
	Rep rep[NR];
	L eps = epsOf<R>(), mag = 0;

	V point(int i) const { return pts[i]; }
	void reset(Rep& r) { memset((void*)&r.a, 0xA5, sizeof r.a); memset((void*)&r.c, 0xA5, sizeof r.c); memset((void*)&r.x, 0xA5, sizeof r.x); memset((void*)&r.s, 0xA5, sizeof r.s); r.any = false; r.ops = 0; }
	// deliver in one of the documented ways
	void deliver(Rep& r, const std::vector<int>& ids, int mode)
	{
		if (ids.empty()) return;
		int n = (int)ids.size();
		for (int i : ids) { if (!r.got.insert(i).second) ctr(DUPS); r.log.push_back(i); }
		ctr(DELIVER, n);
		g_sh->simtime_us += n;
		bool made = md(mode, 8) >= 4;   // by the static makers rather than the setters
		mode = (int)md(mode, 4);
		if (mode == 0)
		{
			for (int i : ids)
			{
				V p = point(i);
				if (!r.any) { if (made) { r.a = A::from(p); r.c = C::from(p); r.x.set(p); } else { r.a.set(p); r.c.set(p); r.x = A::from(p); } r.any = true; }
				else { r.a.add(p); r.c.add(p); r.ops++; r.x.add(p); }
			}
			return;
		}
		A a; C c;
		if (mode == 1)
		{
			std::vector<V> v;
			for (int i : ids) v.push_back(point(i));
			if (made) { a = A::from(n, v.data()); c = C::from(n, v.data()); } else { a.set(n, v.data()); c.set(n, v.data()); }
			ctr(BATCH);
		}
		else
		{
			// records with other data around the point
			size_t pad = mode == 2 ? 8 : 40, rec = sizeof(V) + pad;
			rec = (rec + sizeof(R) - 1) / sizeof(R) * sizeof(R);
			std::vector<char> buf(rec * n);
			memset(buf.data(), 0x7F, buf.size());
			for (int k = 0; k < n; k++) memcpy(&buf[k * rec], &pts[ids[k]], sizeof(V));
			const V* f = (const V*)buf.data();
			if (mode == 2) { a.set(n, f, (int)rec); c.set(n, f, (int)rec); }
			else { a = A::from(n, f, (int)rec); c = C::from(n, f, (int)rec); }
			ctr(STRIDED);
		}
		absorb(r, a, c);
	}
	void absorb(Rep& r, const A& a, const C& c)
	{
		if (!r.any) { r.a = a; r.c = c; r.x = A::from(c); r.ops += 2; r.any = true; return; }
		r.a = A::fromUnion(r.a, a);
		A u = A::fromUnion(A::from(r.c), A::from(c));
		r.c.set(u);
		r.x = A::fromUnion(r.x, a);
		r.ops += 4;
		ctr(MERGE);
	}
	void buildSphere(Rep& r, int how)
	{
		std::vector<V> v;
		for (int i : r.log) v.push_back(point(i));
		int n = (int)v.size();
		if (how & 1) std::reverse(v.begin(), v.end());
		if (how & 2)
		{
			size_t rec = sizeof(V) + 3 * sizeof(R);
			std::vector<char> buf(rec * n, 0x7F);
			for (int k = 0; k < n; k++) memcpy(&buf[k * rec], &v[k], sizeof(V));
			if (how & 4) r.s.set(n, (const V*)buf.data(), (int)rec); else r.s = S::from(n, (const V*)buf.data(), (int)rec);
		}
		else if (how & 4) r.s.set(n, v.data());
		else r.s = S::from(n, v.data());
		ctr(BUILT);
	}
	bool encl(const S& s, const Rep& r, const char* what, L tol, int id)
	{
		L c[3]; get(s.center, c);
		for (int i : r.got)
		{
			L q[3]; get(pts[i], q);
			L d = sqrtl((q[0] - c[0]) * (q[0] - c[0]) + (q[1] - c[1]) * (q[1] - c[1]) + (q[2] - c[2]) * (q[2] - c[2]));
			ctr(CHECKS);
			if (!(d <= (L)s.radius + tol))
			{
				rep_violation("enclose", "replica %d: %s (centre %.9Lg %.9Lg %.9Lg radius %.9g) leaves out a delivered point at distance %.9Lg", id, what, c[0], c[1], c[2], (double)s.radius, d);
				return false;
			}
		}
		return true;
	}
	void check(int id, int how)
	{
		Rep& r = rep[id];
		if (!r.any) return;
		L lo[3] = { 0 }, hi[3] = { 0 };
		bool first = true;
		for (int i : r.got)
		{
			L q[3]; get(pts[i], q);
			for (int k = 0; k < 3; k++) { if (first || q[k] < lo[k]) lo[k] = q[k]; if (first || q[k] > hi[k]) hi[k] = q[k]; }
			first = false;
			if (!r.a.contains(pts[i])) return rep_violation("contains", "replica %d: the box says it does not contain a delivered point (%.9Lg %.9Lg %.9Lg)", id, q[0], q[1], q[2]);
		}
		L inf[3], sup[3];
		get(r.a.inf, inf); get(r.a.sup, sup);
		for (int k = 0; k < (int)T::D; k++)
		{
			evd(inf[k]); evd(sup[k]);
			ctr(CHECKS, 2);
			if (!(inf[k] == lo[k]) || !(sup[k] == hi[k]))
				return rep_violation("box", "replica %d: box axis %d is [%.9Lg, %.9Lg], the delivered points span [%.9Lg, %.9Lg]", id, k, inf[k], sup[k], lo[k], hi[k]);
		}
		L tol = (8 + 8 * r.ops) * eps * mag + 1e-300L;
		V ci = r.c.inf(), cs = r.c.sup();
		L c0[3], c1[3], x0[3], x1[3];
		get(ci, c0); get(cs, c1); get(r.x.inf, x0); get(r.x.sup, x1);
		for (int k = 0; k < (int)T::D; k++)
		{
			evd(c0[k]); evd(c1[k]);
			ctr(CHECKS, 4);
			if (!(fabsl(c0[k] - lo[k]) <= tol) || !(fabsl(c1[k] - hi[k]) <= tol))
				return rep_violation("centred box", "replica %d: centred box axis %d is [%.9Lg, %.9Lg], the delivered points span [%.9Lg, %.9Lg] (tolerance %.3Lg)", id, k, c0[k], c1[k], lo[k], hi[k], tol);
			if (!(fabsl(x0[k] - lo[k]) <= tol) || !(fabsl(x1[k] - hi[k]) <= tol))
				return rep_violation("converted box", "replica %d: converted box axis %d is [%.9Lg, %.9Lg], the delivered points span [%.9Lg, %.9Lg] (tolerance %.3Lg)", id, k, x0[k], x1[k], lo[k], hi[k], tol);
		}
		buildSphere(r, how);
		L big[3]; get(r.s.center, big);
		for (L b : big) evd(b);
		evd(r.s.radius);
		L st = 32 * eps * mag;
		if (!encl(r.s, r, "the sphere or circle built from the points", st, id)) return;
		if (!encl(T::outer(r.a), r, "the outer sphere or circle of the box", st, id)) return;
		if (!encl(T::outerC(r.c), r, "the outer sphere or circle of the centred box", st + 4 * tol, id)) return;
	}
	void run(const Plan& p)
	{
		ctr(sizeof(R) == 4 ? FLOATS : DOUBLES);
		ctr(T::D == 2 ? D2 : D3);
		for (int i = 0; i < NR; i++) reset(rep[i]);
		for (auto& st : p.steps)
			if (st.k == "pt")
			{
				L v[3];
				for (int k = 0; k < 3; k++) v[k] = (L)fx(st.arg(k)) * ldexpl(1, (int)md(st.arg(3), 61) - 30);
				pts.push_back(T::mk(v));
				L q[3]; get(pts.back(), q);
				for (L c : q) mag = fmaxl(mag, fabsl(c));
			}
		if (pts.empty()) return;
		int np = (int)pts.size();
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			if (st.k == "pt" || st.k == "type") continue;
			for (char ch : st.k) shape((unsigned char)ch);
			for (i64 a : st.a) shape(a);
			int i = (int)md(st.arg(0), NR), j = (int)md(st.arg(1), NR);
			Rep& r = rep[i];
			if (st.k == "msg")
			{
				// a batch of points: first, count, stride over the stream, mode, order
				std::vector<int> ids;
				int first = (int)md(st.arg(1), np), cnt = (int)md(st.arg(2), 64), sp = 1 + (int)md(st.arg(3), np);
				for (int k = 0; k < cnt; k++) ids.push_back((int)((first + (i64)k * sp) % np));
				int ord = (int)md(st.arg(5), 3);
				if (ord == 1) std::reverse(ids.begin(), ids.end());
				if (ord == 2) { Rng q((u64)st.arg(6)); for (size_t k = ids.size(); k > 1; k--) std::swap(ids[k - 1], ids[q.below(k)]); }
				if (ord) ctr(REORDER);
				deliver(r, ids, (int)md(st.arg(4), 8));
				check(i, (int)md(st.arg(7), 8));
			}
			else if (st.k == "merge")
			{
				if (i == j || !rep[j].any) continue;
				Rep& q = rep[j];
				r.ops += q.ops;
				if (!r.any) { r.a = q.a; r.c = q.c; r.x = q.x; r.any = true; }
				else
				{
					r.a = A::fromUnion(r.a, q.a);
					r.x = A::fromUnion(q.x, r.x);
					r.c = T::fromInfSup(A::fromUnion(A::from(q.c), A::from(r.c)).inf, A::fromUnion(A::from(q.c), A::from(r.c)).sup);
					r.ops += 6;
				}
				for (int k : q.log) { r.log.push_back(k); r.got.insert(k); }
				ctr(PARTITION);
				check(i, (int)md(st.arg(2), 8));
			}
			else if (st.k == "convert")
			{
				if (!r.any) continue;
				int n = 1 + (int)md(st.arg(1), 4);
				for (int k = 0; k < n; k++)
				{
					C c; c.set(r.x); r.x.set(c);
					A a = A::from(r.c); r.c.set(a);
					r.ops += 4;
				}
				ctr(CONVERT);
				check(i, (int)md(st.arg(2), 8));
			}
			else if (st.k == "crash")
			{
				if (!r.any) continue;
				std::vector<int> log = r.log;
				reset(r);
				r.log.clear(); r.got.clear();
				ctr(CRASH);
				int how = (int)md(st.arg(1), 3);
				if (how == 0) { deliver(r, log, (int)md(st.arg(2), 8)); ctr(FROMLOG); }
				else if (how == 1)
				{
					// replay in chunks
					for (size_t k = 0; k < log.size(); k += 3) deliver(r, std::vector<int>(log.begin() + k, log.begin() + std::min(log.size(), k + 3)), (int)md(st.arg(2), 8));
					ctr(FROMLOG);
				}
				else if (rep[j].any && i != j)
				{
					// state transfer from a peer, then what the peer has not seen
					r = rep[j];
					std::vector<int> rest;
					for (int k : log) if (!r.got.count(k)) rest.push_back(k);
					deliver(r, rest, 0);
					ctr(FROMPEER);
				}
				else deliver(r, log, 0);
				check(i, (int)md(st.arg(3), 8));
			}
		}
		// the faults stop: everything is delivered everywhere, replicas must agree
		for (int i = 0; i < NR && !rep_violated(); i++)
		{
			std::vector<int> rest;
			for (int k = 0; k < np; k++) if (!rep[i].got.count(k)) rest.push_back(k);
			deliver(rep[i], rest, i);
			check(i, i);
		}
		for (int i = 1; i < NR && !rep_violated(); i++)
		{
			ctr(AGREE);
			if (!(rep[i].a == rep[0].a)) rep_violation("agree", "replicas 0 and %d received the same points and hold different boxes", i);
			L c0[3], c1[3];
			get(rep[i].s.center, c0); get(rep[0].s.center, c1);
			L d = fabsl(rep[i].s.radius - rep[0].s.radius);
			for (int k = 0; k < 3; k++) d = fmaxl(d, fabsl(c0[k] - c1[k]));
			if (!(d <= 64 * eps * mag)) rep_violation("agree", "replicas 0 and %d received the same points; their spheres or circles differ by %.6Lg", i, d);
		}
	}
};
}
const char* const names_C12[] = { "points delivered", "duplicate deliveries", "reordered batches", "array batches", "strided batches", "unions of per-batch volumes", "box conversion chains", "crashes", "rebuilds from the delivery log", "rebuilds by state transfer from a peer", "bounds and enclosures compared", "replica pairs compared after healing", "runs in float", "runs in double", "runs in the plane", "runs in space", "spheres or circles built", "merges of whole partitions", nullptr };
void gen_C12(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1), r.range(0, 1) });
	int np = (int)r.range(1, tier ? 60 : 30);
	int style = (int)r.below(6);
	i64 e = r.chance(0.6) ? 30 : r.range(0, 60), base[3];
	for (auto& b : base) b = r.range(-1000000, 1000000);
	for (int i = 0; i < np; i++)
	{
		i64 v[3];
		for (int k = 0; k < 3; k++)
			v[k] = style == 0 ? r.range(-4, 4) * 1024 : style == 1 ? r.range(-100000, 100000) : style == 2 ? base[k] + r.range(-20, 20) : style == 3 ? (k == 0 ? r.range(-100000, 100000) : base[k])
				: style == 4 ? -r.range(1, 100000) : r.range(1, 100000);
		p.add("pt", { v[0], v[1], v[2], r.chance(0.05) ? r.range(0, 60) : e });
	}
	int n = (int)r.range(3, tier ? 50 : 25);
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		i64 a = r.range(0, NR - 1), b = r.range(0, NR - 1), how = r.range(0, 7);
		if (u < 0.62) p.add("msg", { a, r.range(0, np - 1), r.chance(0.5) ? r.range(1, 4) : r.range(1, 40), r.range(0, np - 1), r.range(0, 7), r.range(0, 2), r.range(0, 1000), how });
		else if (u < 0.78) p.add("merge", { a, b, how });
		else if (u < 0.86) p.add("convert", { a, r.range(0, 3), how });
		else p.add("crash", { a, b, r.range(0, 7), how });
	}
}
void exec_C12(const Plan& p)
{
	i64 t = 0, d = 0;
	if (!p.steps.empty() && p.steps[0].k == "type") { t = p.steps[0].arg(0) & 1; d = p.steps[0].arg(1) & 1; }
	if (t) { if (d) (new World<double, T3<double>>)->run(p); else (new World<double, T2<double>>)->run(p); }
	else { if (d) (new World<float, T3<float>>)->run(p); else (new World<float, T2<float>>)->run(p); }
}
