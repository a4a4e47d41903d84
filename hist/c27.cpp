// C27: typed state journalled through data views and member copies, with torn records, crash and restore, sent to replicas of another precision, and compared.
#include "h.h"
#include <vector>
using namespace mathlib;
namespace {
enum { WRITES, VIEWWRITES, COORDWRITES, SPECIALS, RECORDS, TORN, RESTORES, SENDS, NARROWED, COMPARES, EQUALS, NEARLY, COPIES };
template <class R> u64 bitsOf(R v) { u64 b = 0; memcpy(&b, &v, sizeof v); return b; }
template <class R> bool same(R a, R b) { return bitsOf(a) == bitsOf(b) || (a != a && b != b); }

// elements of a type in the order of its data view, and whether it has one
template <class T> struct El;
#define TYPE(T, VIEW, ...) template <class R> struct El<T<R>> { static const char* name() { return #T; } static bool view() { return VIEW; } static R* data(T<R>& v) { return dataOf<VIEW>(v); } static std::vector<R*> of(T<R>& v) { return { __VA_ARGS__ }; } };
template <bool V, class T> typename std::enable_if<V, typename T::Real*>::type dataOf(T& v) { return v.data(); }
template <bool V, class T> typename std::enable_if<!V, typename T::Real*>::type dataOf(T&) { return nullptr; }
TYPE(Vec2, true, &v.x, &v.y)
TYPE(Vec3, true, &v.x, &v.y, &v.z)
TYPE(Vec4, true, &v.x, &v.y, &v.z, &v.w)
TYPE(Mat2, true, &v.x.x, &v.x.y, &v.y.x, &v.y.y)
TYPE(Mat3, true, &v.x.x, &v.x.y, &v.x.z, &v.y.x, &v.y.y, &v.y.z, &v.z.x, &v.z.y, &v.z.z)
TYPE(Mat4, true, &v.x.x, &v.x.y, &v.x.z, &v.x.w, &v.y.x, &v.y.y, &v.y.z, &v.y.w, &v.z.x, &v.z.y, &v.z.z, &v.z.w, &v.t.x, &v.t.y, &v.t.z, &v.t.w)
TYPE(Mat34, false, &v.rs.x.x, &v.rs.x.y, &v.rs.x.z, &v.rs.y.x, &v.rs.y.y, &v.rs.y.z, &v.rs.z.x, &v.rs.z.y, &v.rs.z.z, &v.t.x, &v.t.y, &v.t.z)
TYPE(Quat, true, &v.x, &v.y, &v.z, &v.w)
TYPE(ColorRGB, true, &v.r, &v.g, &v.b)
TYPE(ColorRGBA, true, &v.r, &v.g, &v.b, &v.a)
TYPE(ColorHSV, true, &v.h, &v.s, &v.v)
TYPE(Circle, true, &v.center.x, &v.center.y, &v.radius)
TYPE(Sphere, true, &v.center.x, &v.center.y, &v.center.z, &v.radius)
TYPE(Plane, true, &v.normal.x, &v.normal.y, &v.normal.z, &v.d)
TYPE(AABB2, false, &v.inf.x, &v.inf.y, &v.sup.x, &v.sup.y)
TYPE(AABB3, false, &v.inf.x, &v.inf.y, &v.inf.z, &v.sup.x, &v.sup.y, &v.sup.z)
TYPE(CAABB2, false, &v.center.x, &v.center.y, &v.extents.x, &v.extents.y)
TYPE(CAABB3, false, &v.center.x, &v.center.y, &v.center.z, &v.extents.x, &v.extents.y, &v.extents.z)
TYPE(Line2, false, &v.start.x, &v.start.y, &v.end.x, &v.end.y)
TYPE(Line3, false, &v.start.x, &v.start.y, &v.start.z, &v.end.x, &v.end.y, &v.end.z)
TYPE(Tri2, false, &v.a.x, &v.a.y, &v.b.x, &v.b.y, &v.c.x, &v.c.y)
TYPE(Ray2, false, &v.start.x, &v.start.y, &v.direction.x, &v.direction.y)
TYPE(Ray3, false, &v.start.x, &v.start.y, &v.start.z, &v.direction.x, &v.direction.y, &v.direction.z)

struct Cell
{
	virtual ~Cell() {}
	virtual bool write(i64 i, i64 how, i64 kind, i64 v) = 0;
	virtual bool record(i64 keep) = 0;
	virtual bool restore() = 0;
	virtual bool send() = 0;
	virtual bool compare(i64 i, i64 kind, i64 v) = 0;
};
template <class R> R value(i64 kind, i64 v, R old)
{
	switch (md(kind, 12))
	{
	case 0: return R(0);
	case 1: return -R(0);
	case 2: ctr(SPECIALS); return std::numeric_limits<R>::infinity() * (v & 1 ? 1 : -1);
	case 3: ctr(SPECIALS); return std::numeric_limits<R>::denorm_min() * (R)(1 + md(v, 1000));
	case 4: ctr(SPECIALS); return std::numeric_limits<R>::max() * (v & 1 ? 1 : -1);
	case 5: return std::nextafter(old, (R)(v & 1 ? 1e30 : -1e30));
	case 6: return -old;
	case 7: return (R)(fx(v) / 3);
	case 8: return (R)std::ldexp(fx(v) / 3, (int)md(v, 60) - 30);
	case 9: return (R)1;
	default: return (R)fx(v);
	}
}
template <template <class> class T, class R, bool CMP = true> struct Typed : Cell
{
	typedef El<T<R>> E;
	T<R> live;
	R ref[16], disk[16];
	int n;
	Typed() : n((int)E::of(live).size())
	{
		for (int i = 0; i < n; i++) { ref[i] = disk[i] = (R)(i + 1); *E::of(live)[i] = ref[i]; }
	}
	bool check(const char* when)
	{
		auto e = E::of(live);
		R* d = E::data(live);
		const T<R>& c = live;
		if (E::view())
		{
			if (d != e[0] || constData(c) != e[0]) { rep_violation("view", "the data view of a %s does not start at its first element", E::name()); return false; }
			for (int i = 0; i < n; i++) if (&d[i] != e[i]) { rep_violation("view", "element %d of the data view of a %s is another element", i, E::name()); return false; }
		}
		for (int i = 0; i < n; i++) { ev(bitsOf(*e[i])); if (!same(*e[i], ref[i])) { rep_violation("value", "element %d of a %s is %.17g after %s, not %.17g", i, E::name(), (double)*e[i], when, (double)ref[i]); return false; } }
		return true;
	}
	static const R* constData(const T<R>& c) { return cd<T<R>>(c, std::integral_constant<bool, false>()); }
	template <class U> static auto cd(const U& c, std::false_type) -> decltype(c.data()) { return c.data(); }
	template <class U> static const R* cd(const U& c, ...) { return nullptr; }
	// through Coord, where the type has it
	static bool byCoord(Vec2<R>& v, int i, R x) { static const Coord C[] = { Coord::X, Coord::Y }; v[C[i]] = x; const Vec2<R>& c = v; return same(R(c[C[i]]), x); }
	static bool byCoord(Vec3<R>& v, int i, R x) { static const Coord C[] = { Coord::X, Coord::Y, Coord::Z }; if (bitsOf(x) & 1) v.set(C[i], x); else v[C[i]] = x; const Vec3<R>& c = v; return same(R(c[C[i]]), x); }
	template <class U> static bool byCoord(U& v, int i, R x) { *El<U>::of(v)[i] = x; return true; }
	bool write(i64 i0, i64 how, i64 kind, i64 v) override
	{
		int i = (int)md(i0, n);
		R x = value<R>(kind, v, ref[i]);
		if (i == n - 1 && (!strcmp(E::name(), "Circle") || !strcmp(E::name(), "Sphere"))) x = std::fabs(x); // a radius is never negative
		ctr(WRITES);
		if ((how & 3) == 0 && E::view()) { ctr(VIEWWRITES); E::data(live)[i] = x; }
		else if ((how & 3) == 1) { ctr(COORDWRITES); if (!byCoord(live, i, x)) { rep_violation("coord", "a coordinate of a %s is not the one just written", E::name()); return false; } }
		else *E::of(live)[i] = x;
		ref[i] = x;
		return check("a write");
	}
	bool record(i64 keep) override
	{
		ctr(RECORDS);
		int k = keep < 0 ? n : (int)md(keep, n + 1);
		if (k < n) ctr(TORN);
		const R* d = E::view() ? constData(live) : nullptr;
		auto e = E::of(live);
		for (int i = 0; i < k; i++) disk[i] = d ? d[i] : *e[i];
		return true;
	}
	bool restore() override
	{
		ctr(RESTORES);
		T<R> fresh;
		auto e = E::of(fresh);
		R* d = E::data(fresh);
		for (int i = 0; i < n; i++) if (d) d[i] = disk[i]; else *e[i] = disk[i];
		live = fresh;
		for (int i = 0; i < n; i++) ref[i] = disk[i];
		return check("a restart");
	}
	template <class D> bool sendTo()
	{
		T<D> there = live.template cast<D>();
		auto e = El<T<D>>::of(there);
		bool dir = sizeof(T<R>) == sizeof(Ray2<R>) && (strcmp(E::name(), "Ray2") == 0);
		(void)dir;
		for (int i = 0; i < n; i++) if (!same(*e[i], (D)ref[i])) { rep_violation("cast", "element %d of a %s is %.17g after a cast, not %.17g", i, E::name(), (double)*e[i], (double)(D)ref[i]); return false; }
		if (sizeof(D) < sizeof(R)) ctr(NARROWED);
		T<R> back = there.template cast<R>();
		auto b = E::of(back);
		for (int i = 0; i < n; i++) if (!same(*b[i], (R)(D)ref[i])) { rep_violation("cast", "element %d of a %s is %.17g after a cast and back, not %.17g", i, E::name(), (double)*b[i], (double)(R)(D)ref[i]); return false; }
		return check("a cast");
	}
	bool send() override { ctr(SENDS); return sendTo<double>() && sendTo<float>(); }
	template <class U> static bool eq(const U& a, const U& b) { return a == b; }
	template <class U> static bool ne(const U& a, const U& b) { return a != b; }
	bool compare(i64 i0, i64 kind, i64 v) override
	{
		if (!CMP) return true;
		ctr(COMPARES);
		int i = (int)md(i0, n);
		T<R> other;
		auto e = E::of(other);
		bool want = true;
		R x = (kind & 64) ? ref[i] : (kind & 32) ? std::numeric_limits<R>::quiet_NaN() : value<R>(kind, v, ref[i]);
		i64 mode = (kind >> 7) & 3; // one element, all or some turned round, rotated by a place
		for (int k = 0; k < n; k++)
		{
			*e[k] = mode == 1 ? -ref[k] : mode == 2 && ((v >> k) & 1) ? -ref[k] : mode == 3 ? ref[(k + i) % n] : k == i ? x : ref[k];
			if (!(*e[k] == ref[k])) want = false;
		}
		if (want) ctr(EQUALS); else if (md(kind, 12) == 5) ctr(NEARLY);
		bool a = eq(live, other), b = eq(other, live), c = ne(live, other), d = ne(other, live);
		ev(a);
		if (a != want || b != want) { rep_violation("compare", "a %s %s another that differs %s (element %d: %.17g, %.17g)", E::name(), a ? "equals" : "does not equal", want ? "in nothing" : "from it", i, (double)ref[i], (double)x); return false; }
		if (c == want || d == want) { rep_violation("compare", "a %s is both, or neither, equal and unequal to another (element %d: %.17g, %.17g)", E::name(), i, (double)ref[i], (double)x); return false; }
		bool self = true;
		for (int k = 0; k < n; k++) if (*e[k] != *e[k]) self = false;
		if (eq(other, other) != self || ne(other, other) == self) { rep_violation("compare", "a %s compared with itself is wrong (element %d: %.17g)", E::name(), i, (double)x); return false; }
		ctr(COPIES);
		T<R> copy(live); T<R> as; as = live;
		auto p = E::of(copy), q = E::of(as);
		for (int k = 0; k < n; k++) if (!same(*p[k], ref[k]) || !same(*q[k], ref[k])) { rep_violation("value", "element %d of a %s is not copied", k, E::name()); return false; }
		return check("a comparison");
	}
};
// rays are normalised by a cast: only where they start is exact
template <template <class> class T, class R> struct TypedRay : Typed<T, R>
{
	bool send() override
	{
		ctr(SENDS);
		T<double> there = this->live.template cast<double>();
		auto e = El<T<double>>::of(there);
		int n = this->n;
		L l = 0;
		for (int i = 0; i < n / 2; i++) if (!same(*e[i], (double)this->ref[i])) { rep_violation("cast", "element %d of a %s is %.17g after a cast, not %.17g", i, El<T<R>>::name(), *e[i], (double)this->ref[i]); return false; }
		for (int i = n / 2; i < n; i++) l += (L)this->ref[i] * this->ref[i];
		l = sqrtl(l);
		bool sane = l > 1e-10L && l < 1e10L;
		for (int i = n / 2; i < n; i++) if (!std::isfinite(this->ref[i])) sane = false;
		for (int i = n / 2; sane && i < n; i++) if (!(fabsl(*e[i] - this->ref[i] / l) <= 16 * epsOf<R>())) { rep_violation("cast", "element %d of a %s is %.17g after a cast, not %.17g", i, El<T<R>>::name(), *e[i], (double)(this->ref[i] / l)); return false; }
		return this->check("a cast");
	}
};
template <class R> struct World
{
	std::vector<Cell*> cells;
	World()
	{
		cells = { new Typed<Vec2, R>, new Typed<Vec3, R>, new Typed<Vec4, R>, new Typed<Mat2, R>, new Typed<Mat3, R>, new Typed<Mat4, R>, new Typed<Mat34, R>, new Typed<Quat, R>, new Typed<ColorRGB, R>, new Typed<ColorRGBA, R>, new Typed<ColorHSV, R>, new Typed<Circle, R>, new Typed<Sphere, R>, new Typed<Plane, R>, new Typed<AABB2, R>, new Typed<AABB3, R>, new Typed<CAABB2, R>, new Typed<CAABB3, R>, new Typed<Line2, R>, new Typed<Line3, R>, new Typed<Tri2, R>, new TypedRay<Ray2, R>, new TypedRay<Ray3, R> };
	}
	void run(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			shape((unsigned char)md(st.arg(0), cells.size()));
			g_sh->simtime_us += 1000;
			if (st.k == "type") continue;
			Cell* c = cells[md(st.arg(0), cells.size())];
			if (st.k == "write") { if (!c->write(st.arg(1), st.arg(2), st.arg(3), st.arg(4))) return; }
			else if (st.k == "record") { if (!c->record(st.arg(1))) return; }
			else if (st.k == "crash") { for (auto* q : cells) if (!q->restore()) return; }
			else if (st.k == "restore") { if (!c->restore()) return; }
			else if (st.k == "send") { if (!c->send()) return; }
			else if (st.k == "compare") { if (!c->compare(st.arg(1), st.arg(2), st.arg(3))) return; }
		}
	}
};
}
const char* const names_C27[] = { "writes", "writes through a data view", "writes through a coordinate", "infinite, denormal or largest values", "records written", "records torn", "restores", "casts", "casts to a smaller type", "comparisons", "comparisons of equals", "comparisons one step apart", "copies", nullptr };
void gen_C27(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	int n = (int)r.range(20, tier ? 200 : 120), focus = (int)r.range(0, 22);
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		i64 c = r.chance(0.5) ? focus : r.range(0, 22), v = r.range(-(1 << 20), 1 << 20);
		if (u < 0.40) p.add("write", { c, r.range(0, 15), r.range(0, 3), r.range(0, 11), v });
		else if (u < 0.52) p.add("record", { c, r.chance(0.6) ? -1 : r.range(0, 16) });
		else if (u < 0.58) p.add("restore", { c });
		else if (u < 0.60) p.add("crash", { 0 });
		else if (u < 0.74) p.add("send", { c });
		else p.add("compare", { c, r.range(0, 15), r.range(0, 127) | (r.chance(0.7) ? 0 : r.range(0, 3) << 7), v });
	}
}
void exec_C27(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<double>)->run(p); else (new World<float>)->run(p);
}
