// C32: results written over what they are computed from. Values live in shared cells; the plan decides which cell a step changes and which cells, or parts of
// cells, it reads. Every step is run in place and, with the same code, on separate copies: both leave the same bits everywhere.
#include "h.h"
using namespace mathlib;
namespace {
enum { STEPS, OWN, OWNPART, APART, ARRAYS, CURVES, FRUSTUMS, REFILLS, SAVES, CRASHES };
template <class R> struct Cells
{
	enum { N2 = 3, N3 = 4, N4 = 3, NA = 6 };
	Vec2<R> v2[N2], a2[NA]; Vec3<R> v3[N3], a3[NA]; Vec4<R> v4[N4], a4[NA];
	Mat2<R> m2[2]; Mat3<R> m3[2]; Mat34<R> m34[2]; Mat4<R> m4[2]; Quat<R> q[4];
	AABB2<R> b2[2]; AABB3<R> b3[2]; CAABB2<R> c2[2]; CAABB3<R> c3[2]; Circle<R> ci[2]; Sphere<R> sp[2]; Plane<R> pl[2];
	Line3<R> ln[2]; Ray3<R> ry[2]; BezierSegment3<R> bz[2]; HermiteSplineSegment3<R> hs[2]; Frustum<R> fr;
	ColorRGB<R> rgb[2]; ColorRGBA<R> rgba[2]; ColorHSV<R> hsv[2]; R num[2];
	template <class F> void all(F f) const
	{
		auto e2 = [&](const char* n, const Vec2<R>& v) { f(n, v.x); f(n, v.y); };
		auto e3 = [&](const char* n, const Vec3<R>& v) { f(n, v.x); f(n, v.y); f(n, v.z); };
		auto e4 = [&](const char* n, const Vec4<R>& v) { f(n, v.x); f(n, v.y); f(n, v.z); f(n, v.w); };
		for (auto& v : v2) e2("planar vector", v);
		for (auto& v : a2) e2("array of planar vectors", v);
		for (auto& v : v3) e3("vector", v);
		for (auto& v : a3) e3("array of vectors", v);
		for (auto& v : v4) e4("homogeneous vector", v);
		for (auto& v : a4) e4("array of homogeneous vectors", v);
		for (auto& m : m2) { e2("2x2 matrix", m.x); e2("2x2 matrix", m.y); f("report of a 2x2 matrix", R(m.isIdentity() + 2 * m.isOrthonormal())); }
		for (auto& m : m3) { e3("3x3 matrix", m.x); e3("3x3 matrix", m.y); e3("3x3 matrix", m.z); f("report of a 3x3 matrix", R(m.isIdentity() + 2 * m.isOrthonormal())); }
		for (auto& m : m34) { e3("3x4 matrix", m.rs.x); e3("3x4 matrix", m.rs.y); e3("3x4 matrix", m.rs.z); e3("3x4 matrix", m.t); f("report of a 3x4 matrix", R(m.isIdentity() + 2 * m.isOrthonormal())); }
		for (auto& m : m4) { e4("4x4 matrix", m.x); e4("4x4 matrix", m.y); e4("4x4 matrix", m.z); e4("4x4 matrix", m.t); f("report of a 4x4 matrix", R(m.isIdentity() + 2 * m.isOrthonormal())); }
		for (auto& v : q) { f("quaternion", v.x); f("quaternion", v.y); f("quaternion", v.z); f("quaternion", v.w); }
		for (auto& v : b2) { e2("planar box", v.inf); e2("planar box", v.sup); }
		for (auto& v : b3) { e3("box", v.inf); e3("box", v.sup); }
		for (auto& v : c2) { e2("planar centred box", v.center); e2("planar centred box", v.extents); }
		for (auto& v : c3) { e3("centred box", v.center); e3("centred box", v.extents); }
		for (auto& v : ci) { e2("circle", v.center); f("circle", v.radius); }
		for (auto& v : sp) { e3("sphere", v.center); f("sphere", v.radius); }
		for (auto& v : pl) { e3("plane", v.normal); f("plane", v.d); }
		for (auto& v : ln) { e3("segment", v.start); e3("segment", v.end); }
		for (auto& v : ry) { e3("ray", v.start); e3("ray", v.direction); }
		for (auto& v : bz) { e3("curve", v.p1()); e3("curve", v.p2()); e3("curve", v.p3()); e3("curve", v.p4()); }
		for (auto& v : hs) { e3("Hermite curve", v.p1()); e3("Hermite curve", v.p4()); e3("Hermite curve", v.r1()); e3("Hermite curve", v.r4()); }
		for (auto& v : fr.corners) e3("corner of a frustum", v);
		for (auto& v : fr.planes) { e3("plane of a frustum", v.normal); f("plane of a frustum", v.d); }
		for (auto& v : rgb) { f("colour", v.r); f("colour", v.g); f("colour", v.b); }
		for (auto& v : rgba) { f("colour with alpha", v.r); f("colour with alpha", v.g); f("colour with alpha", v.b); f("colour with alpha", v.a); }
		for (auto& v : hsv) { f("HSV colour", v.h); f("HSV colour", v.s); f("HSV colour", v.v); }
		for (auto v : num) f("number", v);
	}
};
// where a step writes (d) and reads (a, b, c): cells by number; own: vectors it reads are parts of the cell it changes
struct Ix { int d, w, a, b, c; bool own; double r, k; Coord co, co2; };
template <class R> struct Ops
{
	typedef Cells<R> C;
	typedef const C& K;
	// any vector in the cells, or one of those given
	static const Vec3<R>& v3(K o, int i)
	{
		switch (md(i, 13))
		{
		case 0: return o.v3[0]; case 1: return o.v3[1]; case 2: return o.v3[2]; case 3: return o.b3[0].inf; case 4: return o.sp[0].center; case 5: return o.pl[0].normal; case 6: return o.ln[0].start;
		case 7: return o.ry[0].direction; case 8: return o.m34[0].t; case 9: return o.m3[0].y; case 10: return o.c3[0].extents; case 11: return o.m34[0].rs.z; default: return o.v3[3];
		}
	}
	static const Vec2<R>& v2(K o, int i) { switch (md(i, 7)) { case 0: return o.v2[0]; case 1: return o.v2[1]; case 2: return o.b2[0].inf; case 3: return o.ci[0].center; case 4: return o.m2[0].y; case 5: return o.c2[0].extents; default: return o.v2[2]; } }
	static const Vec2<R>& p2(K o, const Ix& x, int i, const Vec2<R>& a, const Vec2<R>& b) { return !x.own ? v2(o, i) : i & 1 ? b : a; }
	static const Vec3<R>& p3(K o, const Ix& x, int i, const Vec3<R>& a, const Vec3<R>& b) { return !x.own ? v3(o, i) : i & 1 ? b : a; }
	static const Vec3<R>& p3(K o, const Ix& x, int i, const Vec3<R>& a, const Vec3<R>& b, const Vec3<R>& c, const Vec3<R>& d) { return !x.own ? v3(o, i) : md(i, 4) == 0 ? a : md(i, 4) == 1 ? b : md(i, 4) == 2 ? c : d; }
	static Vec3<R>& out(C& o, int i) { switch (md(i, 7)) { case 0: return o.v3[0]; case 1: return o.v3[1]; case 2: return o.ln[0].start; case 3: return o.ln[1].end; case 4: return o.ry[0].start; case 5: return o.sp[1].center; default: return o.v3[2]; } }
	static const Vec3<R>& in(K o, int i) { return out(const_cast<C&>(o), i); }
	static const Vec2<R>& m2p(K o, const Ix& x, int i) { return p2(o, x, i, o.m2[x.d].x, o.m2[x.d].y); }
	static const Vec3<R>& m3p(K o, const Ix& x, int i) { auto& m = o.m3[x.d]; return p3(o, x, i, m.x, m.y, m.z, m.x); }
	static const Vec3<R>& m34p(K o, const Ix& x, int i) { auto& m = o.m34[x.d]; return p3(o, x, i, m.rs.x, m.rs.y, m.rs.z, m.t); }
	static const Vec4<R>& m4p(K o, const Ix& x, int i) { auto& m = o.m4[x.d]; return !x.own ? o.v4[md(i, 3)] : md(i, 4) == 0 ? m.x : md(i, 4) == 1 ? m.y : md(i, 4) == 2 ? m.z : m.t; }
	struct Op { const char* name; bool arrays; void (*f)(C& d, K o, K p, K s, const Ix& x); };
	static const Op table[];
	static const int count;
};
#define OP(name, ...) { name, false, [](C& d, K o, K p, K s, const Ix& x) { __VA_ARGS__; } },
#define ARR(name, ...) { name, true, [](C& d, K o, K p, K s, const Ix& x) { __VA_ARGS__; } },
template <class R> const typename Ops<R>::Op Ops<R>::table[] = {
	// vectors
	OP("vec2 +=", d.v2[x.d] += v2(o, x.a))
	OP("vec2 -=", d.v2[x.d] -= v2(o, x.a))
	OP("vec2 set", d.v2[x.d].set(v2(o, x.a)))
	OP("vec2 *= matrix", d.v2[x.d] *= o.m2[x.a & 1])
	OP("vec2 clerp", d.v2[x.d].clerp(o.v2[x.a % 3], p.v2[x.b % 3], R(x.r)))
	OP("vec2 clerpMaxAngle", d.v2[x.d].clerpMaxAngle(o.v2[x.a % 3], p.v2[x.b % 3], R(x.r)))
	OP("vec2 *= element", d.v2[x.d] *= o.v2[x.a % 3].y)
	OP("column of a 2x2 matrix mapped by it", d.v2[x.d] = o.m2[x.a & 1] * o.m2[x.a & 1].x)
	OP("vec2 transform", o.m2[x.a & 1].transform(d.v2[x.d], p.v2[x.b % 3]))
	ARR("vec2 array transform", o.m2[x.a & 1].transform(d.a2, p.a2, (size_t)(x.b % 6 + 1)))
	ARR("vec2 strided transform", o.m2[x.a & 1].transform(d.a2, p.a2, 3, 2 * sizeof(Vec2<R>), 2 * sizeof(Vec2<R>)))
	OP("vec3 +=", out(d, x.w) += v3(o, x.a))
	OP("vec3 -=", out(d, x.w) -= v3(o, x.a))
	OP("vec3 set", out(d, x.w).set(v3(o, x.a)))
	OP("vec3 %=", out(d, x.w) %= v3(o, x.a))
	OP("vec3 *= matrix", out(d, x.w) *= o.m3[x.a & 1])
	OP("vec3 /= element", R k = o.v3[x.a & 3].y; if (k != R(0)) d.v3[x.d & 3] /= o.v3[x.a & 3].y)
	OP("vec3 slerp", d.v3[x.d & 3].slerp(o.v3[x.a & 3], p.v3[x.b & 3], R(x.r)))
	OP("vec3 slerpMaxAngle", d.v3[x.d & 3].slerpMaxAngle(o.v3[x.a & 3], p.v3[x.b & 3], R(x.r)))
	OP("vec3 transform by 3x3", o.m3[x.a & 1].transform(out(d, x.w), in(p, x.b)))
	OP("vec3 transform by 3x4", o.m34[x.a & 1].transform(out(d, x.w), in(p, x.b)))
	OP("vec3 transform by 4x4", o.m4[x.a & 1].transform(out(d, x.w), in(p, x.b)))
	ARR("vec3 array transform by 3x3", o.m3[x.a & 1].transform(d.a3, p.a3, (size_t)(x.b % 6 + 1)))
	ARR("vec3 strided transform by 3x3", o.m3[x.a & 1].transform(d.a3, p.a3, 3, 2 * sizeof(Vec3<R>), 2 * sizeof(Vec3<R>)))
	ARR("vec3 array transform by 3x4", o.m34[x.a & 1].transform(d.a3, p.a3, (size_t)(x.b % 6 + 1)))
	ARR("vec3 strided transform by 3x4", o.m34[x.a & 1].transform(d.a3, p.a3, 3, 2 * sizeof(Vec3<R>), 2 * sizeof(Vec3<R>)))
	ARR("vec3 array transform by 4x4", o.m4[x.a & 1].transform(d.a3, p.a3, (size_t)(x.b % 6 + 1)))
	ARR("vec3 strided transform by 4x4", o.m4[x.a & 1].transform(d.a3, p.a3, 3, 2 * sizeof(Vec3<R>), 2 * sizeof(Vec3<R>)))
	OP("vec4 += vec4", d.v4[x.d % 3] += o.v4[x.a % 3])
	OP("vec4 -= vec4", d.v4[x.d % 3] -= o.v4[x.a % 3])
	OP("vec4 += vec3", d.v4[x.d % 3] += v3(o, x.a))
	OP("vec4 set", d.v4[x.d % 3].set(o.v4[x.a % 3]))
	OP("vec4 set of its own element", d.v4[x.d % 3].set(v3(o, x.a), p.v4[x.b % 3].x))
	OP("vec4 *= element", d.v4[x.d % 3] *= o.v4[x.a % 3].z)
	OP("vec4 transform by 4x4", o.m4[x.a & 1].transform(d.v4[x.d % 3], p.v4[x.b % 3]))
	ARR("vec4 array transform by 4x4", o.m4[x.a & 1].transform(d.a4, p.a4, (size_t)(x.b % 6 + 1)))
	ARR("vec4 strided transform by 4x4", o.m4[x.a & 1].transform(d.a4, p.a4, 3, 2 * sizeof(Vec4<R>), 2 * sizeof(Vec4<R>)))
	OP("vec3 transformVector", o.m4[x.a & 1].transformVector(out(d, x.w), in(p, x.b)))
	ARR("vec3 array transformVector", o.m4[x.a & 1].transformVector(d.a3, p.a3, (size_t)(x.b % 6 + 1)))
	ARR("vec3 strided transformVector", o.m4[x.a & 1].transformVector(d.a3, p.a3, 3, 2 * sizeof(Vec3<R>), 2 * sizeof(Vec3<R>)))
	OP("vec4 transformVector", o.m4[x.a & 1].transformVector(d.v4[x.d % 3], p.v4[x.b % 3]))
	ARR("vec4 array transformVector", o.m4[x.a & 1].transformVector(d.a4, p.a4, (size_t)(x.b % 6 + 1)))
	ARR("vec4 strided transformVector", o.m4[x.a & 1].transformVector(d.a4, p.a4, 3, 2 * sizeof(Vec4<R>), 2 * sizeof(Vec4<R>)))
	// matrices
	OP("mat2 *= mat2", d.m2[x.d] *= o.m2[x.a & 1])
	OP("mat2 set", d.m2[x.d].set(o.m2[x.a & 1]))
	OP("mat2 set of columns", d.m2[x.d].set(m2p(o, x, x.a), m2p(p, x, x.b)))
	OP("mat2 scale", d.m2[x.d].scale(m2p(o, x, x.a)))
	OP("mat2 slerp", d.m2[x.d].slerp(o.m2[x.a & 1], p.m2[x.b & 1], R(x.r)))
	OP("mat2 slerpMaxAngle", d.m2[x.d].slerpMaxAngle(o.m2[x.a & 1], p.m2[x.b & 1], R(x.r)))
	OP("mat2 *= element", d.m2[x.d] *= o.m2[x.a & 1].x.y)
	OP("mat3 *= mat3", d.m3[x.d] *= o.m3[x.a & 1])
	OP("mat3 set", d.m3[x.d].set(o.m3[x.a & 1]))
	OP("mat3 set of columns", d.m3[x.d].set(m3p(o, x, x.a), m3p(p, x, x.b), m3p(s, x, x.c)))
	OP("mat3 set of an exact and an approximate axis", d.m3[x.d].set(x.co, m3p(o, x, x.a), x.co2, m3p(p, x, x.b)))
	OP("mat3 set of axis and angle", d.m3[x.d].set(m3p(o, x, x.a), R(x.r)))
	OP("mat3 set of a quaternion", d.m3[x.d].set(o.q[x.a & 3]))
	OP("mat3 slerp", d.m3[x.d].slerp(o.m3[x.a & 1], p.m3[x.b & 1], R(x.r)))
	OP("mat3 slerpMaxAngle", d.m3[x.d].slerpMaxAngle(o.m3[x.a & 1], p.m3[x.b & 1], R(x.r)))
	OP("mat3 scale", d.m3[x.d].scale(m3p(o, x, x.a)))
	OP("mat3 rotate by mat3", d.m3[x.d].rotate(o.m3[x.a & 1]))
	OP("mat3 rotatePre by mat3", d.m3[x.d].rotatePre(o.m3[x.a & 1]))
	OP("mat3 rotate by axis", d.m3[x.d].rotate(m3p(o, x, x.a), R(x.r)))
	OP("mat3 rotatePre by axis", d.m3[x.d].rotatePre(m3p(o, x, x.a), R(x.r)))
	OP("mat3 /= element", if (o.m3[x.a & 1].y.y != R(0)) d.m3[x.d] /= o.m3[x.a & 1].y.y)
	OP("mat34 *= mat34", d.m34[x.d] *= o.m34[x.a & 1])
	OP("mat34 *= mat3", d.m34[x.d] *= o.m34[x.a & 1].rs)
	OP("mat34 set", d.m34[x.d].set(o.m34[x.a & 1]))
	OP("mat34 set of parts", d.m34[x.d].set(o.m34[x.a & 1].rs, m34p(p, x, x.b)))
	OP("mat34 set of columns", d.m34[x.d].set(m34p(o, x, x.a), m34p(p, x, x.b), m34p(s, x, x.c), m34p(o, x, x.a + x.b)))
	OP("mat34 set of an exact and an approximate axis", d.m34[x.d].set(x.co, m34p(o, x, x.a), x.co2, m34p(p, x, x.b)))
	OP("mat34 set of axis, angle, translation", d.m34[x.d].set(m34p(o, x, x.a), R(x.r), m34p(p, x, x.b)))
	OP("mat34 set of a quaternion", d.m34[x.d].set(o.q[x.a & 3], m34p(p, x, x.b)))
	OP("mat34 slerp", d.m34[x.d].slerp(o.m34[x.a & 1], p.m34[x.b & 1], R(x.r)))
	OP("mat34 slerpMaxAngle", d.m34[x.d].slerpMaxAngle(o.m34[x.a & 1], p.m34[x.b & 1], R(x.r)))
	OP("mat34 rotate by axis", d.m34[x.d].rotate(m34p(o, x, x.a), R(x.r)))
	OP("mat34 rotatePre by axis", d.m34[x.d].rotatePre(m34p(o, x, x.a), R(x.r)))
	OP("mat34 translate", d.m34[x.d].translate(m34p(o, x, x.a)))
	OP("mat34 translatePre", d.m34[x.d].translatePre(m34p(o, x, x.a)))
	OP("mat34 scale", d.m34[x.d].scale(m34p(o, x, x.a)))
	OP("mat34 scalePre", d.m34[x.d].scalePre(m34p(o, x, x.a)))
	OP("mat34 transform by mat3", d.m34[x.d].transform(o.m34[x.a & 1].rs))
	OP("mat34 transform by mat34", d.m34[x.d].transform(o.m34[x.a & 1]))
	OP("mat34 transformPre by mat3", d.m34[x.d].transformPre(o.m34[x.a & 1].rs))
	OP("mat34 transformPre by mat34", d.m34[x.d].transformPre(o.m34[x.a & 1]))
	OP("mat4 set", d.m4[x.d].set(o.m4[x.a & 1]))
	OP("mat4 set of columns", d.m4[x.d].set(m4p(o, x, x.a), m4p(p, x, x.b), m4p(s, x, x.c), m4p(o, x, x.a + x.b)))
	OP("mat4 *= element", d.m4[x.d] *= o.m4[x.a & 1].y.z)
	OP("mat4 transform by mat4", d.m4[x.d].transform(o.m4[x.a & 1]))
	OP("mat4 transformPre by mat4", d.m4[x.d].transformPre(o.m4[x.a & 1]))
	// quaternions
	OP("quat =", d.q[x.d] = o.q[x.a & 3])
	OP("quat lerp", d.q[x.d].lerp(o.q[x.a & 3], p.q[x.b & 3], R(x.r)))
	OP("quat slerp", d.q[x.d].slerp(o.q[x.a & 3], p.q[x.b & 3], R(x.r)))
	OP("quat slerpNoInvert", d.q[x.d].slerpNoInvert(o.q[x.a & 3], p.q[x.b & 3], R(x.r)))
	OP("quat slerpMaxAngle", d.q[x.d].slerpMaxAngle(o.q[x.a & 3], p.q[x.b & 3], R(x.r)))
	OP("quat squad", d.q[x.d].set(o.q[x.a & 3], p.q[x.b & 3], s.q[x.c & 3], o.q[(x.a + x.c) & 3], R(x.r)))
	OP("quat inner control", d.q[x.d].set(o.q[x.a & 3], p.q[x.b & 3], s.q[x.c & 3]))
	// volumes
	OP("box2 +=", d.b2[x.d] += p2(o, x, x.a, o.b2[x.d].inf, o.b2[x.d].sup))
	OP("box2 -=", d.b2[x.d] -= p2(o, x, x.a, o.b2[x.d].inf, o.b2[x.d].sup))
	OP("box2 add", d.b2[x.d].add(p2(o, x, x.a, o.b2[x.d].inf, o.b2[x.d].sup)))
	OP("box2 set of a point", d.b2[x.d].set(p2(o, x, x.a, o.b2[x.d].inf, o.b2[x.d].sup)))
	OP("box2 set of corners", d.b2[x.d].set(p2(o, x, x.a, o.b2[x.d].inf, o.b2[x.d].sup), p2(p, x, x.b, p.b2[x.d].inf, p.b2[x.d].sup)))
	OP("box3 +=", d.b3[x.d] += p3(o, x, x.a, o.b3[x.d].inf, o.b3[x.d].sup))
	OP("box3 -=", d.b3[x.d] -= p3(o, x, x.a, o.b3[x.d].inf, o.b3[x.d].sup))
	OP("box3 add", d.b3[x.d].add(p3(o, x, x.a, o.b3[x.d].inf, o.b3[x.d].sup)))
	OP("box3 set of a point", d.b3[x.d].set(p3(o, x, x.a, o.b3[x.d].inf, o.b3[x.d].sup)))
	OP("box3 set of corners", d.b3[x.d].set(p3(o, x, x.a, o.b3[x.d].inf, o.b3[x.d].sup), p3(p, x, x.b, p.b3[x.d].inf, p.b3[x.d].sup)))
	OP("centred box2 +=", d.c2[x.d] += p2(o, x, x.a, o.c2[x.d].center, o.c2[x.d].extents))
	OP("centred box2 -=", d.c2[x.d] -= p2(o, x, x.a, o.c2[x.d].center, o.c2[x.d].extents))
	OP("centred box2 add", d.c2[x.d].add(p2(o, x, x.a, o.c2[x.d].center, o.c2[x.d].extents)))
	OP("centred box2 set of a point", d.c2[x.d].set(p2(o, x, x.a, o.c2[x.d].center, o.c2[x.d].extents)))
	OP("centred box2 set", d.c2[x.d].set(p2(o, x, x.a, o.c2[x.d].center, o.c2[x.d].extents), p2(p, x, x.b, p.c2[x.d].center, p.c2[x.d].extents)))
	OP("centred box3 +=", d.c3[x.d] += p3(o, x, x.a, o.c3[x.d].center, o.c3[x.d].extents))
	OP("centred box3 -=", d.c3[x.d] -= p3(o, x, x.a, o.c3[x.d].center, o.c3[x.d].extents))
	OP("centred box3 add", d.c3[x.d].add(p3(o, x, x.a, o.c3[x.d].center, o.c3[x.d].extents)))
	OP("centred box3 set of a point", d.c3[x.d].set(p3(o, x, x.a, o.c3[x.d].center, o.c3[x.d].extents)))
	OP("centred box3 set", d.c3[x.d].set(p3(o, x, x.a, o.c3[x.d].center, o.c3[x.d].extents), p3(p, x, x.b, p.c3[x.d].center, p.c3[x.d].extents)))
	OP("circle +=", d.ci[x.d] += p2(o, x, x.a, o.ci[x.d].center, o.ci[x.d].center))
	OP("circle -=", d.ci[x.d] -= p2(o, x, x.a, o.ci[x.d].center, o.ci[x.d].center))
	OP("circle set", d.ci[x.d].set(p2(o, x, x.a, o.ci[x.d].center, o.ci[x.d].center), p.ci[x.b & 1].radius))
	OP("sphere +=", d.sp[x.d] += p3(o, x, x.a, o.sp[x.d].center, o.sp[x.d].center))
	OP("sphere -=", d.sp[x.d] -= p3(o, x, x.a, o.sp[x.d].center, o.sp[x.d].center))
	OP("sphere set", d.sp[x.d].set(p3(o, x, x.a, o.sp[x.d].center, o.sp[x.d].center), p.sp[x.b & 1].radius))
	OP("plane set of normal and distance", d.pl[x.d].set(p3(o, x, x.a, o.pl[x.d].normal, o.pl[x.d].normal), p.pl[x.b & 1].d))
	OP("plane set of point and normal", d.pl[x.d].set(p3(o, x, x.a, o.pl[x.d].normal, o.v3[0]), p3(p, x, x.b, p.v3[1], p.pl[x.d].normal)))
	OP("plane set of points", d.pl[x.d].set(p3(o, x, x.a, o.pl[x.d].normal, o.v3[0]), p3(p, x, x.b, p.v3[1], p.pl[x.d].normal), v3(s, x.c)))
	OP("plane set of tangents", d.pl[x.d].setFromPointAndTangents(p3(o, x, x.a, o.pl[x.d].normal, o.v3[0]), p3(p, x, x.b, p.v3[1], p.pl[x.d].normal), v3(s, x.c)))
	OP("plane set at a distance", d.pl[x.d].set(o.pl[x.a & 1], R(x.k)))
	// queries that deliver a point
	OP("projection", d.num[0] = o.pl[x.a & 1].project(out(d, x.w), in(p, x.b)))
	OP("slanted projection", o.pl[x.a & 1].project(out(d, x.w), in(p, x.b), in(s, x.c)))
	// curves
	OP("curve split", o.bz[x.a & 1].split(R(x.r), d.bz[x.d & 1], d.bz[(x.d + 1) & 1]))
	OP("curve set", { auto& a = o.bz[x.own ? x.d & 1 : x.a & 1]; auto& b = p.bz[x.own ? x.d & 1 : x.a & 1]; if (x.b & 1) d.bz[x.d & 1].set(a.p4(), b.p3(), a.p2(), b.p1()); else d.bz[x.d & 1].set(a.p2(), a.p1(), b.p4(), b.p2()); })
	OP("Hermite curve set", { auto& a = o.hs[x.own ? x.d & 1 : x.a & 1]; auto& b = p.hs[x.own ? x.d & 1 : x.a & 1]; if (x.b & 1) d.hs[x.d & 1].set(a.p4(), b.p1(), a.r4(), b.r1()); else d.hs[x.d & 1].set(a.r1(), b.r4(), a.p1(), b.p4()); })
	// frustums
	ARR("frustum set", d.fr.set(o.fr.corners))
	ARR("frustum placed by 3x4", d.fr.set(o.m34[x.a & 1], p.fr.corners))
	ARR("frustum placed by 4x4", d.fr.set(o.m4[x.a & 1], p.fr.corners))
	// colours
	OP("colour +=", d.rgb[x.d] += o.rgb[x.a & 1])
	OP("colour -=", d.rgb[x.d] -= o.rgb[x.a & 1])
	OP("colour set", d.rgb[x.d].set(o.rgb[x.a & 1]))
	OP("colour interp", d.rgb[x.d].interp(o.rgb[x.a & 1], p.rgb[x.b & 1], R(x.r)))
	OP("colour *= component", d.rgb[x.d] *= o.rgb[x.a & 1].g)
	OP("RGBA +=", d.rgba[x.d] += o.rgba[x.a & 1])
	OP("RGBA -=", d.rgba[x.d] -= o.rgba[x.a & 1])
	OP("RGBA interp", d.rgba[x.d].interp(o.rgba[x.a & 1], p.rgba[x.b & 1], R(x.r)))
	OP("HSV set", d.hsv[x.d].set(o.hsv[x.a & 1]))
	OP("HSV interp", d.hsv[x.d].interp(o.hsv[x.a & 1], p.hsv[x.b & 1], R(x.r)))
};
template <class R> const int Ops<R>::count = sizeof Ops<R>::table / sizeof *Ops<R>::table;

template <class R> struct World
{
	typedef Cells<R> C;
	C live, saved;
	R number(u64 h)
	{
		switch (h % 5)
		{
		case 0: return R((i64)(h >> 8) % 5 - 2);
		case 1: return R((i64)((h >> 8) % 9) - 4) / 2;
		default: return (R)(((L)((h >> 8) % 200001) - 100000) / 40000);
		}
	}
	void fill(C& c, u64 h)
	{
		int n = 0;
		auto num = [&]() { return number(mix64(h, ++n)); };
		auto pos = [&]() { return R(1 + mix64(h, ++n) % 1000) / R(256); };
		auto unit = [&]() { return R(mix64(h, ++n) % 257) / R(256); };
		auto w2 = [&]() { R a = num(), b = num(); return Vec2<R>(a, b); };
		auto w3 = [&]() { R a = num(), b = num(), k = num(); Vec3<R> v(a, b, k); return v == Vec3<R>(0, 0, 0) ? Vec3<R>(1, 0, 0) : v; };
		auto w4 = [&]() { Vec3<R> v = w3(); return Vec4<R>(v, num()); };
		auto qq = [&]() { R a = num(), b = num(), k = num(), w = num(); Quat<R> q(a, b, k, w, false); q.normalize(); return q; };
		for (auto& v : c.v2) v = w2();
		for (auto& v : c.a2) v = w2();
		for (auto& v : c.v3) v = w3();
		for (auto& v : c.a3) v = w3();
		for (auto& v : c.v4) v = w4();
		for (auto& v : c.a4) v = w4();
		for (auto& q : c.q) q = qq();
		for (auto& m : c.m2) if (num() > 0) m = Mat2<R>::from(num()); else { Vec2<R> a = w2(), b = w2(); m = Mat2<R>::from(a, b); }
		for (auto& m : c.m3) if (num() > 0) m.set(qq()); else { Vec3<R> a = w3(), b = w3(), k = w3(); m = Mat3<R>::from(a, b, k); }
		for (auto& m : c.m34) { Vec3<R> t = w3(); if (num() > 0) m.set(qq(), t); else { Vec3<R> a = w3(), b = w3(), k = w3(); m = Mat34<R>::from(a, b, k, t); } }
		for (auto& m : c.m4) { if (num() > 0) m.set(qq(), w3()); else { Vec4<R> a = w4(), b = w4(), k = w4(), t = w4(); m.set(a, b, k, t); } }
		for (auto& b : c.b2) { Vec2<R> i = w2(), s(pos(), pos()); b = AABB2<R>::from(i, i + s); }
		for (auto& b : c.b3) { Vec3<R> i = w3(), s(pos(), pos(), pos()); b = AABB3<R>::from(i, i + s); }
		for (auto& b : c.c2) { Vec2<R> i = w2(), s(pos(), pos()); b = CAABB2<R>::from(i, s); }
		for (auto& b : c.c3) { Vec3<R> i = w3(), s(pos(), pos(), pos()); b = CAABB3<R>::from(i, s); }
		for (auto& b : c.ci) { Vec2<R> i = w2(); b = Circle<R>::from(i, pos()); }
		for (auto& b : c.sp) { Vec3<R> i = w3(); b = Sphere<R>::from(i, pos()); }
		for (auto& b : c.pl) { Vec3<R> i = w3(); b = Plane<R>::from(i, num()); }
		for (auto& b : c.ln) { Vec3<R> i = w3(), j = w3(); b = Line3<R>::from(i, j); }
		for (auto& b : c.ry) { Vec3<R> i = w3(), j = w3(); b = Ray3<R>::from(i, j); }
		for (auto& b : c.bz) { Vec3<R> i = w3(), j = w3(), k = w3(), l = w3(); b.set(i, j, k, l); }
		for (auto& b : c.hs) { Vec3<R> i = w3(), j = w3(), k = w3(), l = w3(); b.set(i, j, k, l); }
		{
			Vec3<R> f[8];
			R a = pos(), z = a + pos(), w = pos();
			for (int i = 0; i < 8; i++) { R k = (i < 4 ? a : z) * w; f[i] = Vec3<R>((i & 3) == 0 || (i & 3) == 1 ? k : -k, (i & 3) == 0 || (i & 3) == 3 ? k : -k, i < 4 ? a : z); }
			c.fr.set(f);
		}
		for (auto& v : c.rgb) { R a = unit(), b = unit(), k = unit(); v.set(a, b, k); }
		for (auto& v : c.rgba) { R a = unit(), b = unit(), k = unit(); v.set(a, b, k, unit()); }
		for (auto& v : c.hsv) { R a = unit() * R(360), b = unit(), k = unit(); v.set(a, b, k); }
		for (auto& v : c.num) v = num();
	}
	static bool same(R a, R b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
	bool step(const typename Ops<R>::Op& op, const Ix& x)
	{
		ctr(STEPS);
		if (op.arrays) ctr(ARRAYS);
		if (strstr(op.name, "curve")) ctr(CURVES);
		if (strstr(op.name, "frustum")) ctr(FRUSTUMS);
		if (x.own) ctr(OWNPART);
		((x.a & 1) == x.d || (x.b & 1) == x.d || x.a == x.w || x.b == x.w) ? ctr(OWN) : ctr(APART);
		static C apart, o, p, s;   // zeroed padding does not matter: only elements are read
		apart = live; o = live; p = live; s = live;
		op.f(apart, o, p, s, x);
		op.f(live, live, live, live, x);
		std::vector<R> want;
		want.reserve(512);
		apart.all([&](const char*, R v) { want.push_back(v); });
		size_t i = 0;
		bool ok = true, tame = true;
		live.all([&](const char* n, R v)
		{
			if (ok && !same(v, want[i])) { ok = false; rep_violation("inplace", "\"%s\" where an operand is what it changes: an element of a %s is %.9g, %.9g on separate copies", op.name, n, (double)v, (double)want[i]); }
			i++;
			tame = tame && v == v && fabs((double)v) < 1e4;
		});
		if (!ok) return false;
		// operands that were kept apart are only read
		if (!tame) { ctr(REFILLS); return true; }
		evd(want[i / 2]);
		return true;
	}
	bool tame() { bool t = true; live.all([&](const char*, R v) { t = t && v == v && fabs((double)v) < 1e4; }); for (auto& v : live.v3) t = t && !(v == Vec3<R>(0, 0, 0)); return t; }
	void run(const Plan& pl)
	{
		fill(live, 1); saved = live;
		for (auto& st : pl.steps)
		{
			if (rep_violated()) return;
			g_sh->simtime_us += 16000;
			if (st.k == "type") continue;
			if (st.k == "fill") { fill(live, (u64)st.arg(0)); shape('f'); }
			else if (st.k == "save") { ctr(SAVES); saved = live; shape('s'); }
			else if (st.k == "crash") { ctr(CRASHES); live.~C(); memset((void*)&live, 0xa5, sizeof(C)); new ((void*)&live) C; live = saved; shape('c'); }
			else if (st.k == "step")
			{
				static const Coord CO[] = { Coord::X, Coord::Y, Coord::Z };
				Ix x;
				x.w = (int)md(st.arg(1), 12); x.d = x.w & 1; x.a = (int)md(st.arg(2), 12); x.b = (int)md(st.arg(3), 12); x.c = (int)md(st.arg(4), 12);
				x.own = st.arg(5) & 1; x.r = md(st.arg(6), 257) / 256.0; x.k = md(st.arg(6), 4096) / 512.0 - 4;
				x.co = CO[md(st.arg(7), 3)]; x.co2 = CO[md(st.arg(7) + 1 + md(st.arg(7) / 3, 2), 3)];
				int n = (int)md(st.arg(0), Ops<R>::count);
				shape((u64)n * 4 + (x.own ? 1 : 0) + (x.a == x.w ? 2 : 0));
				// a rotation by interpolation is asked of rotations only, a direction of directions
				if (strstr(Ops<R>::table[n].name, "slerp") && !strncmp(Ops<R>::table[n].name, "mat", 3)) { if (!rotations(Ops<R>::table[n].name, x)) continue; }
				if (!step(Ops<R>::table[n], x)) return;
				if (!tame()) fill(live, mix64(7, (u64)st.arg(6)));
			}
		}
	}
	bool rotations(const char* name, const Ix& x)
	{
		auto pair = [&](auto& m) { return m[x.a & 1].isOrthonormal() && m[x.b & 1].isOrthonormal(); };
		return name[3] == '2' ? pair(live.m2) : name[4] == '4' ? pair(live.m34) : pair(live.m3);
	}
};
}
const char* const names_C32[] = { "steps", "steps that read the cell they change", "steps that read a part of the cell they change", "steps on separate cells", "arrays mapped in place", "curves set or split into themselves", "frustums placed in place", "values that overflowed", "saves", "crashes", nullptr };
void gen_C32(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	p.add("fill", { r.range(0, 1 << 30) });
	int n = (int)r.range(15, tier ? 120 : 50);
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		if (u < 0.06) p.add("fill", { r.range(0, 1 << 30) });
		else if (u < 0.09) p.add("save", {});
		else if (u < 0.11) p.add("crash", {});
		else
		{
			i64 d = r.range(0, 11), a = r.chance(0.35) ? d : r.range(0, 11), b = r.chance(0.35) ? d : r.range(0, 11), c = r.chance(0.35) ? d : r.range(0, 11);
			p.add("step", { r.range(0, 1 << 20), d, a, b, c, r.range(0, 1), r.range(0, 1 << 20), r.range(0, 5) });
		}
	}
}
void exec_C32(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<float>)->run(p); else (new World<double>)->run(p);
}
