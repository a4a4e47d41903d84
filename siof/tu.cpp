// One unit of the simulated program. Its static objects are built at a moment the simulator chooses;
// some call back into the simulator, which then evaluates probes of any unit.
#include <cassert>
#include <cmath>
#include "mathlib.h"
#include "prog.h"
using namespace mathlib;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace {
struct Hook { int phase; Hook(int p) : phase(p) { sim_hook(TU, p); } ~Hook() { sim_hook(TU, 3 + phase); } };
Hook early(0);

template <class R> void put(Rec& r, const Vec2<R>& v) { r.put(v.x); r.put(v.y); }
template <class R> void put(Rec& r, const Vec3<R>& v) { r.put(v.x); r.put(v.y); r.put(v.z); }
template <class R> void put(Rec& r, const Vec4<R>& v) { r.put(v.x); r.put(v.y); r.put(v.z); r.put(v.w); }
template <class R> void put(Rec& r, const Quat<R>& v) { r.put(v.x); r.put(v.y); r.put(v.z); r.put(v.w); }
template <class R> void put(Rec& r, const Mat2<R>& m) { put(r, m.x); put(r, m.y); r.put(m.isIdentity()); r.put(m.isInitialized()); }
template <class R> void put(Rec& r, const Mat3<R>& m) { put(r, m.x); put(r, m.y); put(r, m.z); r.put(m.isIdentity()); r.put(m.isInitialized()); }
template <class R> void put(Rec& r, const Mat34<R>& m) { put(r, m.rs.x); put(r, m.rs.y); put(r, m.rs.z); put(r, m.t); r.put(m.isIdentity()); r.put(m.isInitialized()); }
template <class R> void put(Rec& r, const Mat4<R>& m) { put(r, m.x); put(r, m.y); put(r, m.z); put(r, m.t); r.put(m.isIdentity()); r.put(m.isInitialized()); }
template <class R> void put(Rec& r, const AABB2<R>& b) { put(r, b.inf); put(r, b.sup); }
template <class R> void put(Rec& r, const AABB3<R>& b) { put(r, b.inf); put(r, b.sup); }
template <class R> void put(Rec& r, const CAABB2<R>& b) { put(r, b.center); put(r, b.extents); }
template <class R> void put(Rec& r, const CAABB3<R>& b) { put(r, b.center); put(r, b.extents); }
template <class R> void put(Rec& r, const Circle<R>& b) { put(r, b.center); r.put(b.radius); }
template <class R> void put(Rec& r, const Sphere<R>& b) { put(r, b.center); r.put(b.radius); }
template <class R> void put(Rec& r, const Plane<R>& b) { put(r, b.normal); r.put(b.d); }
template <class R> void put(Rec& r, const ColorRGB<R>& c) { r.put(c.r); r.put(c.g); r.put(c.b); }
template <class R> void put(Rec& r, const ColorRGBA<R>& c) { r.put(c.r); r.put(c.g); r.put(c.b); r.put(c.a); }
template <class R> void put(Rec& r, const ColorHSV<R>& c) { r.put(c.h); r.put(c.s); r.put(c.v); }
template <class R> void put(Rec& r, const MatrixTolerance<R>& t) { r.put(t.normal); r.put(t.orthogonal); r.put(t.identity); }
inline void put(Rec& r, float v) { r.put(v); }
inline void put(Rec& r, double v) { r.put(v); }
inline void put(Rec& r, bool v) { r.put(v); }

// a static member of a class template: some compilers give it an initialiser of its own
template <class T> struct Own { static Hook h; };
template <class T> Hook Own<T>::h(2);
struct Mine {};
void* keep() { return &Own<Mine>::h; }

// operands that are neither constants nor initialised dynamically
template <class R> Vec3<R> A() { return Vec3<R>(R(1), R(-2), R(0.5)); }
template <class R> Vec3<R> B() { return Vec3<R>(R(0.25), R(1), R(-1)); }
template <class R> Vec2<R> A2() { return Vec2<R>(R(1), R(-2)); }

template <class R> Vec4<R> modes(int n)
{
	return Vec4<R>(lerp(R(1), R(3), R(0.3), InterpolationMode(n)), lerp(R(1), R(3), R(0.7), InterpolationMode(n + 1)), lerp(R(1), R(3), R(0.6), InterpolationMode(n + 2)), lerp(R(1), R(3), R(0.4), InterpolationMode(n + 3)));
}
template <class R> Vec4<R> responses()
{
	return Vec4<R>(evaluate(R(0.5), R(0.1), ResponseCurveType::Linear), evaluate(R(0.5), R(0.1), ResponseCurveType::Cubic), evaluate(R(-0.5), R(0.1), ResponseCurveType::Exponential), evaluate(R(0.5), R(0.1), ResponseCurveType::Cosine));
}
// name, expression over R, number of literal values (-1: none), literal values
#define ROW(T, NAME, EXPR, N, ...) { NAME "<" #T ">", [](Rec& r) { typedef T R; (void)sizeof(R); put(r, EXPR); }, N, { __VA_ARGS__ } },
// a named constant, with its documented elements (N < 0: has none that every precision can state)
#define C(X, N, ...) ROW(float, #X, (X), N, __VA_ARGS__) ROW(double, #X, (X), N, __VA_ARGS__)
// a call whose implementation or default arguments use named constants
#define CALL(EXPR) ROW(float, #EXPR, (EXPR), -1, 0) ROW(double, #EXPR, (EXPR), -1, 0)

Unit unit()
{
static const Probe PROBES[] = {   // filled at first use: needs no static initialiser
#if G_VEC
C(Vec2<R>::Zero, 2, 0, 0) C(Vec2<R>::OneX, 2, 1, 0) C(Vec2<R>::OneY, 2, 0, 1)
C(Vec3<R>::Zero, 3, 0, 0, 0) C(Vec3<R>::OneX, 3, 1, 0, 0) C(Vec3<R>::OneY, 3, 0, 1, 0) C(Vec3<R>::OneZ, 3, 0, 0, 1)
C(Vec4<R>::Zero, 4, 0, 0, 0, 0) C(Vec4<R>::OneX, 4, 1, 0, 0, 1) C(Vec4<R>::OneY, 4, 0, 1, 0, 1) C(Vec4<R>::OneZ, 4, 0, 0, 1, 1) C(Vec4<R>::OneW, 4, 0, 0, 0, 1)
C(Vec4<R>::OneXnw, 4, 1, 0, 0, 0) C(Vec4<R>::OneYnw, 4, 0, 1, 0, 0) C(Vec4<R>::OneZnw, 4, 0, 0, 1, 0)
#endif
#if G_MAT
C(Mat2<R>::Zero, 6, 0, 0, 0, 0, 0, 1) C(Mat2<R>::One, 6, 1, 0, 0, 1, 1, 1)
C(Mat3<R>::Zero, 11, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1) C(Mat3<R>::One, 11, 1, 0, 0, 0, 1, 0, 0, 0, 1, 1, 1)
C(Mat34<R>::Zero, 14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1) C(Mat34<R>::One, 14, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 1)
C(Mat4<R>::Zero, 18, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1) C(Mat4<R>::One, 18, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 1, 1)
C(Mat2<R>::DefaultTolerance, -2, 0) C(Mat3<R>::DefaultTolerance, -2, 0) C(Mat4<R>::DefaultTolerance, -2, 0)
CALL(Mat34<R>(Mat3<R>(R(2)))) CALL(Mat34<R>().set(Mat3<R>(R(2)))) CALL(Mat34<R>().setIdentity()) CALL(Mat4<R>().setIdentity()) CALL(Mat3<R>().setIdentity()) CALL(Mat2<R>().setIdentity())
CALL(Mat4<R>(A<R>(), B<R>(), A<R>() % B<R>())) CALL(Mat4<R>().set(Vec4<R>(A<R>()), Vec4<R>(B<R>()), Vec4<R>(A<R>() % B<R>())))
CALL(Mat3<R>::from(Coord::Y, R(0.5))) CALL(Mat34<R>::from(Coord::Z, R(0.5))) CALL(Mat34<R>::from(B<R>(), R(0.25))) CALL(Mat4<R>::from(Coord::X, R(0.5)))
CALL(Mat3<R>::from(A<R>(), B<R>(), A<R>() % B<R>())) CALL(Mat3<R>(A<R>(), B<R>(), A<R>() % B<R>()).optimize()) CALL(Mat2<R>(A2<R>(), Vec2<R>(R(2), R(1))).optimize())
CALL(Mat3<R>::from(Coord::Y, R(0.5)).inversed()) CALL(Mat4<R>::from(Coord::X, R(0.5)).inversed()) CALL(Mat34<R>::from(Coord::Z, R(0.5)).invert())
CALL(Mat3<R>(A<R>(), B<R>(), A<R>() % B<R>()).inversed()) CALL(Mat4<R>(A<R>(), B<R>(), A<R>() % B<R>()).optimize())
CALL((Mat3<R>::One * A<R>())) CALL((Mat4<R>::One * A<R>())) CALL((Mat3<R>::One * Mat3<R>(R(3)))) CALL(Mat3<R>(R(1)).rotate(Coord::X, R(0.5))) CALL(Mat2<R>(R(1)).rotate(R(0.5)))
#endif
#if G_VOL
C(Quat<R>::One, 4, 0, 0, 0, 1)
C(AABB2<R>::Zero, 4, 0, 0, 0, 0) C(AABB2<R>::One, 4, -0.5, -0.5, 0.5, 0.5) C(AABB3<R>::Zero, 6, 0, 0, 0, 0, 0, 0) C(AABB3<R>::One, 6, -0.5, -0.5, -0.5, 0.5, 0.5, 0.5)
C(CAABB2<R>::One, 4, 0, 0, 0.5, 0.5) C(CAABB3<R>::One, 6, 0, 0, 0, 0.5, 0.5, 0.5) C(Circle<R>::One, 3, 0, 0, 1) C(Sphere<R>::One, 4, 0, 0, 0, 1)
C(Plane<R>::XY, 4, 0, 0, 1, 0) C(Plane<R>::YZ, 4, 1, 0, 0, 0) C(Plane<R>::ZX, 4, 0, 1, 0, 0)
CALL(Quat<R>().setIdentity()) CALL(Quat<R>::from(Vec3<R>(R(0), R(1), R(0)), R(0.5))) CALL(Quat<R>(R(1), R(2), R(-1), R(0.5))) CALL(Quat<R>::One * Quat<R>(R(1), R(2), R(-1), R(0.5)))
CALL(CAABB2<R>().set(A2<R>())) CALL(CAABB3<R>().set(A<R>())) CALL(AABB3<R>::One.contains(Vec3<R>(R(0.25)))) CALL(Sphere<R>::One.contains(Vec3<R>(R(0.25)))) CALL(Plane<R>::XY.distance(A<R>()))
CALL(AABB3<R>(A<R>(), B<R>()).center()) CALL(Sphere<R>(A<R>(), R(2)).contains(B<R>()))
#endif
#if G_COL
C(ColorRGB<R>::Black, 3, 0, 0, 0) C(ColorRGB<R>::White, 3, 1, 1, 1) C(ColorRGB<R>::Red, 3, 1, 0, 0) C(ColorRGB<R>::Green, 3, 0, 1, 0) C(ColorRGB<R>::Blue, 3, 0, 0, 1)
C(ColorRGBA<R>::Black, 4, 0, 0, 0, 1) C(ColorRGBA<R>::White, 4, 1, 1, 1, 1) C(ColorRGBA<R>::Red, 4, 1, 0, 0, 1) C(ColorRGBA<R>::Green, 4, 0, 1, 0, 1) C(ColorRGBA<R>::Blue, 4, 0, 0, 1, 1)
C(ColorHSV<R>::Black, 3, 0, 0, 0) C(ColorHSV<R>::White, 3, 0, 0, 1) C(ColorHSV<R>::Red, 3, 0, 1, 1) C(ColorHSV<R>::Green, 3, 120, 1, 1) C(ColorHSV<R>::Blue, 3, 240, 1, 1)
CALL(ColorRGB<R>(R(0.2), R(0.4), R(0.6)).toHSV()) CALL(ColorHSV<R>(R(100), R(0.4), R(0.6)).toRGB()) CALL(ColorRGB<R>::Green.toHSV())
C(Constants<R>::PI, 1, 3.14159265358979323846) C(Constants<R>::PI_TIMES_2, 1, 6.28318530717958647693) C(Constants<R>::PI_OVER_2, 1, 1.57079632679489661923) C(Constants<R>::PI_OVER_4, 1, 0.78539816339744830962)
C(Constants<R>::PI_OVER_8, 1, 0.39269908169872415481) C(Constants<R>::PI_OVER_16, 1, 0.19634954084936207740) C(Constants<R>::PI_OVER_3, 1, 1.04719755119659774615) C(Constants<R>::PI_OVER_6, 1, 0.52359877559829887308)
C(Constants<R>::MIN_VALUE, -2, 0) C(Constants<R>::MAX_VALUE, -2, 0) C(Constants<R>::MAX_NEG_VALUE, -2, 0)
#endif
#if G_CALL
CALL(degreeToRadian(R(90))) CALL(radianToDegree(R(1.5))) CALL(fmodPositive(R(-1), R(3))) CALL(fmodCentered(R(5), R(3)))
CALL(clerp(R(0.5), R(2.5), R(0.25))) CALL(clerpMaxAngle(R(0.5), R(2.5), R(0.25))) CALL(modes<R>(0)) CALL(modes<R>(8)) CALL(modes<R>(16)) CALL(modes<R>(24))
CALL(Vec3<R>::fromSlerp(Vec3<R>(R(1), R(0), R(0)), Vec3<R>(R(0), R(1), R(0)), R(0.5))) CALL(A<R>().rotated(Coord::X, R(0.5)))
CALL(responses<R>())
#endif
};
	return Unit{ PROBES, (int)(sizeof PROBES / sizeof *PROBES) };
}
Hook late(1);
}
Unit CAT(unit, TU)() { return unit(); }
