// Operation table over the public API of mathlib: operand pool, output recorder, operation registry.
#pragma once
#include "../sim/rt.h"
#include "mathlib.h"
#include <cmath>
#include <limits>
#include <new>

using namespace mathlib;

// ------------------------------------------------------------------ output recorder
struct Out
{
	unsigned char* b; int n;
	void raw(const void* p, int k)
	{
		const unsigned char* c = (const unsigned char*)p;
		for (int i = 0; i < k; i++) if (n < OUTMAX) b[n++] = c[i];
	}
	Out& operator<<(float v) { if (v != v) v = std::numeric_limits<float>::quiet_NaN(); raw(&v, 4); return *this; }
	Out& operator<<(double v) { if (v != v) v = std::numeric_limits<double>::quiet_NaN(); raw(&v, 8); return *this; }
	Out& operator<<(int v) { raw(&v, 4); return *this; }
	Out& operator<<(unsigned v) { raw(&v, 4); return *this; }
	Out& operator<<(bool v) { char c = v ? 1 : 0; raw(&c, 1); return *this; }
	Out& operator<<(Coord v) { int c = (int)v; raw(&c, 4); return *this; }
	template <class R> Out& operator<<(const Vec2<R>& v) { return *this << v.x << v.y; }
	template <class R> Out& operator<<(const Vec3<R>& v) { return *this << v.x << v.y << v.z; }
	template <class R> Out& operator<<(const Vec4<R>& v) { return *this << v.x << v.y << v.z << v.w; }
	template <class R> Out& operator<<(const Quat<R>& v) { return *this << v.x << v.y << v.z << v.w; }
	template <class R> Out& operator<<(const Mat2<R>& m) { return *this << m.x << m.y << m.isNormal() << m.isOrthogonal() << m.isOrthonormal() << m.isIdentity() << m.isInitialized(); }
	template <class R> Out& operator<<(const Mat3<R>& m) { return *this << m.x << m.y << m.z << m.isNormal() << m.isOrthogonal() << m.isOrthonormal() << m.isIdentity() << m.isInitialized(); }
	template <class R> Out& operator<<(const Mat34<R>& m) { return *this << m.rs << m.t << m.isNormal() << m.isOrthogonal() << m.isOrthonormal() << m.isIdentity() << m.isInitialized(); }
	template <class R> Out& operator<<(const Mat4<R>& m) { return *this << m.x << m.y << m.z << m.t << m.isNormal() << m.isOrthogonal() << m.isOrthonormal() << m.isIdentity() << m.isTrs() << m.isInitialized(); }
	template <class R> Out& operator<<(const AABB2<R>& b) { return *this << b.inf << b.sup; }
	template <class R> Out& operator<<(const AABB3<R>& b) { return *this << b.inf << b.sup; }
	template <class R> Out& operator<<(const CAABB2<R>& b) { return *this << b.center << b.extents; }
	template <class R> Out& operator<<(const CAABB3<R>& b) { return *this << b.center << b.extents; }
	template <class R> Out& operator<<(const Circle<R>& b) { return *this << b.center << b.radius; }
	template <class R> Out& operator<<(const Sphere<R>& b) { return *this << b.center << b.radius; }
	template <class R> Out& operator<<(const Plane<R>& b) { return *this << b.normal << b.d; }
	template <class R> Out& operator<<(const Line2<R>& b) { return *this << b.start << b.end; }
	template <class R> Out& operator<<(const Line3<R>& b) { return *this << b.start << b.end; }
	template <class R> Out& operator<<(const Ray2<R>& b) { return *this << b.start << b.direction; }
	template <class R> Out& operator<<(const Ray3<R>& b) { return *this << b.start << b.direction; }
	template <class R> Out& operator<<(const Tri2<R>& b) { return *this << b.a << b.b << b.c; }
	template <class R> Out& operator<<(const ColorRGB<R>& c) { return *this << c.r << c.g << c.b; }
	template <class R> Out& operator<<(const ColorRGBA<R>& c) { return *this << c.r << c.g << c.b << c.a; }
	template <class R> Out& operator<<(const ColorHSV<R>& c) { return *this << c.h << c.s << c.v; }
	template <class R> Out& operator<<(const Frustum<R>& f)
	{
		for (int i = 0; i < 8; i++) *this << f.corners[i];
		for (int i = 0; i < 6; i++) *this << f.planes[i];
		return *this;
	}
};

// ------------------------------------------------------------------ operand pool
enum { PN = 16, PARR = 272, SYS = 272, GMAX = 24 };

template <class R> struct Pool
{
	R s[PN], u[PN], pos[PN], ang[PN];
	int in[PN];
	Vec2<R> v2[PN]; Vec3<R> v3[PN]; Vec4<R> v4[PN]; Vec3<R> dir[PN]; Vec2<R> dir2[PN];
	Mat2<R> m2[PN]; Mat3<R> m3[PN]; Mat34<R> m34[PN]; Mat4<R> m4[PN]; Quat<R> q[PN];
	Mat2<R> r2[PN]; Mat3<R> r3[PN]; Mat34<R> r34[PN];
	AABB2<R> b2[PN]; AABB3<R> b3[PN]; CAABB2<R> cb2[PN]; CAABB3<R> cb3[PN];
	Circle<R> ci[PN]; Sphere<R> sp[PN]; Plane<R> pl[PN];
	Line2<R> l2[PN]; Line3<R> l3[PN]; Ray2<R> ry2[PN]; Ray3<R> ry3[PN]; Tri2<R> t2[PN];
	ColorRGB<R> rgb[PN]; ColorRGBA<R> rgba[PN]; ColorHSV<R> hsv[PN];
	Frustum<R> fr[PN];
	HermiteSplineSegment3<R> hs[PN]; BezierSegment3<R> bz[PN];
	MatrixTolerance<R> tol[PN];
	// systems and bulk operands
	R da[PN][SYS], db[PN][SYS], dc[PN][SYS], dr[PN][SYS]; R ga[PN][GMAX * GMAX];
	Vec3<R> p3[PN][PARR]; Vec2<R> p2[PN][PARR]; Vec4<R> p4[PN][PARR];
};

u64 ops_failed_allocs();
void ops_outcome(int r);
void* ops_place(const void* src, size_t n, size_t align);     // read-only copy at a guard page
void* ops_buf(size_t n, size_t align, bool fill);              // writable memory, at a guard page if the environment says so
void ops_seal(void* p);
unsigned char ops_outfill(u64 addr);
void ops_copybytes(void* d, const void* s, size_t n);
// operand accessor: nibble i of k selects the i-th operand
template <class R> struct A
{
	const Pool<R>& p; u64 k;
	unsigned idx(int i) const { return (unsigned)(k >> (4 * (i & 15))) & 15; }
	template <class T> const T& at(const T* a, int i) const
	{
		const T& src = a[idx(i)];
		if (g_env.place)
		{
			void* g = ops_place(&src, sizeof(T), alignof(T));
			if (g) return *(const T*)g;
		}
		return src;
	}
	static void rt_leave_quiet() { rt_quiet(true); }
	static void rt_enter_quiet() { rt_quiet(false); }
	// which overload of a bulk operation is called: the operands decide, so that every call with them is the same call
	bool strided() const { return (((k >> 7) ^ (k >> 22) ^ (k >> 41)) & 3) != 0; }
	// n elements of row idx(i), possibly strided; stride in bytes is returned
	template <class T> const T* bulk(const T* row, int n, size_t& stride) const
	{
		stride = sizeof(T);
		if (g_env.gap && strided())
		{
			static const int gaps[] = { 0, 8, 16, 24, 40 };
			int g = gaps[(unsigned)(g_env.gap + n) % 5];
			stride = sizeof(T) + (size_t)g;
		}
		if (!g_env.place && stride == sizeof(T)) return row;
		rt_leave_quiet();
		size_t bytes = n ? stride * (size_t)(n - 1) + sizeof(T) : 0;
		unsigned char* d = (unsigned char*)ops_buf(bytes, alignof(T), true);
		for (int i = 0; i < n; i++) ops_copybytes(d + stride * (size_t)i, row + i, sizeof(T));
		ops_seal(d);
		rt_enter_quiet();
		return (const T*)d;
	}
	// destination for n elements, strided; pre-filled with the environment's pattern
	template <class T> T* dest(int n, size_t& stride) const
	{
		stride = sizeof(T);
		if (g_env.gap && strided())
		{
			static const int gaps[] = { 0, 8, 16, 24, 40 };
			stride = sizeof(T) + (size_t)gaps[(unsigned)(g_env.gap * 3 + n) % 5];
		}
		rt_leave_quiet();
		size_t bytes = n ? stride * (size_t)(n - 1) + sizeof(T) : 0;
		unsigned char* d = (unsigned char*)ops_buf(bytes, alignof(T), true);
		rt_enter_quiet();
		return (T*)d;
	}
	// records a strided destination: elements and untouched gaps
	template <class T> void dump(Out& o, const T* d, int n, size_t stride) const
	{
		rt_leave_quiet();
		for (int i = 0; i < n; i++)
		{
			const unsigned char* c = (const unsigned char*)d + stride * (size_t)i;
			o << *(const T*)c;
			if (i + 1 < n)
				for (size_t j = sizeof(T); j < stride; j++)
					if (c[j] != ops_outfill((u64)(c + j))) rep_violation("overrun", "bytes between strided outputs were overwritten (element %d)", i);
		}
		rt_enter_quiet();
	}
	// n packed elements, at the guard page when the environment says so
	template <class T> const T* packed(const T* row, int n) const
	{
		if (!g_env.place) return row;
		return scratch(row, n);
	}
	template <class T> T* scratch(const T* row, int n) const
	{
		rt_leave_quiet();
		size_t bytes = sizeof(T) * (size_t)n;
		void* d = ops_buf(bytes, alignof(T), false);
		ops_copybytes(d, row, bytes);
		rt_enter_quiet();
		return (T*)d;
	}
	// output array of n packed elements, filled with the environment's pattern
	template <class T> T* fresh(int n) const
	{
		rt_leave_quiet();
		size_t bytes = sizeof(T) * (size_t)n;
		void* d = ops_buf(bytes, alignof(T), true);
		rt_enter_quiet();
		return (T*)d;
	}
	int sysn(int i, int cap) const
	{
		static const int sz[PN] = { 3, 2, 4, 5, 6, 7, 8, 9, 10, 12, 17, 24, 33, 48, 71, 270 };
		int n = sz[idx(i)];
		return n > cap ? 1 + n % cap : n;
	}
	// runs a solver: 2 solved, 1 refused, 0 failed because an allocation failed
	template <class F> int solve(Out& o, F f) const
	{
		u64 f0 = ops_failed_allocs();
		int r;
		try { r = f() ? 2 : 1; }
		catch (const std::bad_alloc&) { r = 0; }
		if (r == 1 && ops_failed_allocs() != f0) r = 0;
		if (r == 0 && ops_failed_allocs() == f0) rep_violation("spurious-bad-alloc", "bad_alloc although no allocation failed");
		ops_outcome(r);
		o << r;
		return r;
	}
	template <class T> void unchanged(int r, const char* what, const T* now, const T* was, int n) const
	{
		if (r != 0) return;
		rt_leave_quiet();
		if (memcmp(now, was, sizeof(T) * (size_t)n)) rep_violation("changed-on-failure", "%s was modified by a call that failed for lack of memory", what);
		rt_enter_quiet();
	}
	template <class T> void list(Out& o, int r, const T* v, int n) const
	{
		if (r != 2) return;
		for (int i = 0; i < n; i++) o << v[i];
	}
	R s(int i) const { return at(p.s, i); } R u(int i) const { return at(p.u, i); } R pos(int i) const { return at(p.pos, i); } R ang(int i) const { return at(p.ang, i); }
	int in(int i) const { return at(p.in, i); }
	int n(int i, int lo, int hi) const { return lo + (int)(idx(i) % (unsigned)(hi - lo + 1)); }
	Coord c2(int i) const { return idx(i) & 1 ? Coord::Y : Coord::X; }
	Coord c3(int i) const { return (Coord)(idx(i) % 3); }
	Coord c4(int i) const { return (Coord)(idx(i) % 4); }
	Axis ax(int i) const { return (Axis)(idx(i) % 6); }
#define ACC(T, n) const T<R>& n(int i) const { return at(p.n, i); }
	ACC(Vec2, v2) ACC(Vec3, v3) ACC(Vec4, v4) ACC(Vec3, dir) ACC(Vec2, dir2) ACC(Mat2, m2) ACC(Mat3, m3) ACC(Mat34, m34) ACC(Mat4, m4) ACC(Quat, q)
	ACC(Mat2, r2) ACC(Mat3, r3) ACC(Mat34, r34) ACC(AABB2, b2) ACC(AABB3, b3) ACC(CAABB2, cb2) ACC(CAABB3, cb3) ACC(Circle, ci) ACC(Sphere, sp) ACC(Plane, pl)
	ACC(Line2, l2) ACC(Line3, l3) ACC(Ray2, ry2) ACC(Ray3, ry3) ACC(Tri2, t2) ACC(ColorRGB, rgb) ACC(ColorRGBA, rgba) ACC(ColorHSV, hsv) ACC(Frustum, fr)
	ACC(HermiteSplineSegment3, hs) ACC(BezierSegment3, bz) ACC(MatrixTolerance, tol)
#undef ACC
};
// ------------------------------------------------------------------ registry
struct OpDef { const char* name; void (*f)(const void* pool, u64 k, Out& o); int real; };
void ops_register(const OpDef&);
#define OPS_TYPES typedef R Real; \
	typedef Vec2<R> V2; typedef Vec3<R> V3; typedef Vec4<R> V4; typedef Mat2<R> M2; typedef Mat3<R> M3; typedef Mat34<R> M34; typedef Mat4<R> M4; typedef Quat<R> Q; \
	typedef AABB2<R> B2; typedef AABB3<R> B3; typedef CAABB2<R> CB2; typedef CAABB3<R> CB3; typedef Circle<R> Ci; typedef Sphere<R> Sp; typedef Plane<R> Pl; typedef Line2<R> L2; typedef Line3<R> L3; typedef Ray2<R> R2; typedef Ray3<R> R3; typedef Tri2<R> T2; \
	typedef ColorRGB<R> RGB; typedef ColorRGBA<R> RGBA; typedef ColorHSV<R> HSV; typedef Frustum<R> Fr; typedef HermiteSplineSegment3<R> HS; typedef BezierSegment3<R> BZ; typedef BezierSegment3FwdDiff<R> FD; typedef SplineSolver3<R> SS; typedef TriDiagonal<R> TD; typedef GaussJordan<R> GJ;
