// Shared by the history scenarios (C11..C17): long double reference arithmetic and plan helpers.
#pragma once
#include "../sim/core.h"
#include <cassert>
#include <cmath>
#include <limits>
#include "mathlib.h"

typedef long double L;
template <class R> inline L epsOf() { return std::numeric_limits<R>::epsilon(); }
// a plan argument as a fixed-point number
inline double fx(i64 a) { return (double)a / 1024.0; }

struct L3
{
	L x, y, z;
	L3(L a = 0, L b = 0, L c = 0) : x(a), y(b), z(c) {}
	template <class R> static L3 of(const mathlib::Vec3<R>& v) { return L3(v.x, v.y, v.z); }
	L3 operator+(const L3& o) const { return L3(x + o.x, y + o.y, z + o.z); }
	L3 operator-(const L3& o) const { return L3(x - o.x, y - o.y, z - o.z); }
	L3 operator*(L k) const { return L3(x * k, y * k, z * k); }
	L dot(const L3& o) const { return x * o.x + y * o.y + z * o.z; }
	L3 cross(const L3& o) const { return L3(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x); }
	L len() const { return sqrtl(dot(*this)); }
	L maxabs() const { return fmaxl(fabsl(x), fmaxl(fabsl(y), fabsl(z))); }
	L3 unit() const { L l = len(); return l > 0 ? *this * (1 / l) : *this; }
	bool finite() const { return std::isfinite(x) && std::isfinite(y) && std::isfinite(z); }
};
// columns x, y, z: M v = x v.x + y v.y + z v.z
struct LM
{
	L3 x, y, z;
	LM() : x(1, 0, 0), y(0, 1, 0), z(0, 0, 1) {}
	LM(const L3& a, const L3& b, const L3& c) : x(a), y(b), z(c) {}
	template <class R> static LM of(const mathlib::Mat3<R>& m) { return LM(L3::of(m.x), L3::of(m.y), L3::of(m.z)); }
	L3 operator*(const L3& v) const { return x * v.x + y * v.y + z * v.z; }
	LM operator*(const LM& m) const { return LM(*this * m.x, *this * m.y, *this * m.z); }
	LM transposed() const { return LM(L3(x.x, y.x, z.x), L3(x.y, y.y, z.y), L3(x.z, y.z, z.z)); }
	L det() const { return x.dot(y.cross(z)); }
	LM inversed() const
	{
		L d = det();
		return LM(y.cross(z) * (1 / d), z.cross(x) * (1 / d), x.cross(y) * (1 / d)).transposed();
	}
	L norm() const { return fmaxl(x.len(), fmaxl(y.len(), z.len())); }
	L dist(const LM& m) const { return fmaxl((x - m.x).maxabs(), fmaxl((y - m.y).maxabs(), (z - m.z).maxabs())); }
	static LM diag(const L3& d) { return LM(L3(d.x, 0, 0), L3(0, d.y, 0), L3(0, 0, d.z)); }
	// right-handed rotation about an axis
	static LM rot(const L3& axis, L angle)
	{
		L3 a = axis.unit();
		L c = cosl(angle), s = sinl(angle);
		auto col = [&](const L3& e) { return e * c + a.cross(e) * s + a * (a.dot(e) * (1 - c)); };
		return LM(col(L3(1, 0, 0)), col(L3(0, 1, 0)), col(L3(0, 0, 1)));
	}
	bool finite() const { return x.finite() && y.finite() && z.finite(); }
};
// a well-spread direction from three plan arguments (never zero)
inline L3 dirOf(i64 a, i64 b, i64 c)
{
	L3 v((L)(a % 2048), (L)(b % 2048), (L)(c % 2048));
	return v.x == 0 && v.y == 0 && v.z == 0 ? L3(0, 0, 1) : v;
}
template <class R> inline mathlib::Vec3<R> V3(const L3& v) { return mathlib::Vec3<R>((R)v.x, (R)v.y, (R)v.z); }
inline i64 md(i64 a, i64 n) { return (i64)((u64)a % (u64)n); }
inline void evd(L v) { double d = (double)v; u64 b; memcpy(&b, &d, 8); ev(d != d ? 1 : b); g_sh->steps++; }
inline void ev3(const L3& v) { evd(v.x); evd(v.y); evd(v.z); }

// o = expr, where the value of expr is built in memory that holds rubbish, out of the compiler's sight: a library
// function which forgets to set a part of its result cannot be saved by what happens to be in o already
template <class T, class F> __attribute__((noinline)) void put(T& o, F f)
{
	union U { T t; U() {} ~U() {} } u;
	memset((void*)&u, 0x4B, sizeof u);
	asm volatile("" : : "r"(&u) : "memory");
	new ((void*)&u.t) T(f());
	asm volatile("" : : "r"(&u) : "memory");
	o = u.t;
}
#define PUT(o, ...) put(o, [&] { return __VA_ARGS__; })

#define SCEN(id) void gen_##id(Plan&, Rng&, int); void exec_##id(const Plan&); extern const char* const names_##id[];
SCEN(C11) SCEN(C12) SCEN(C13) SCEN(C14) SCEN(C15) SCEN(C16) SCEN(C17) SCEN(C18) SCEN(C19) SCEN(C25) SCEN(C22) SCEN(C24) SCEN(C26) SCEN(C21) SCEN(C23) SCEN(C27) SCEN(C29) SCEN(C30) SCEN(C31) SCEN(C20) SCEN(C32) SCEN(C33)
