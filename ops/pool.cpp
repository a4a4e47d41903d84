// Builds operand pools. Runs in a process of its own so that the parent stays pristine.
#include "pool.h"

namespace {
template <class R> struct Build
{
	OPS_TYPES
	Rng& r; int fam;
	R sp()
	{
		static const double v[] = { 0.0, -0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 1e-3, -1e-3, 1e-7, 1000.0, -1000.0, 3.0, 180.0, 1e6, -1e-6 };
		return R(v[r.below(16)]);
	}
	R s()
	{
		switch (fam)
		{
		case 1: return R(r.range(-4, 4));
		case 4: if (r.chance(0.02)) { static const double w[] = { NAN, INFINITY, -INFINITY, 1e30, 1e-30 }; return R(w[r.below(5)]); } return R((r.unit() * 2 - 1) * (r.chance(0.2) ? 50 : 3));
		case 3: return r.chance(0.5) ? sp() : R((r.unit() * 2 - 1) * 4);
		default: return R((r.unit() * 2 - 1) * (r.chance(0.2) ? 50 : 3));
		}
	}
	R u() { if (fam == 1) return R(r.range(0, 4)) / R(4); if (fam == 3 && r.chance(0.4)) { static const double v[] = { 0, 1, 0.5, 0.25, 1e-4, 0.9999 }; return R(v[r.below(6)]); } return R(r.unit()); }
	R pos() { return fam == 1 ? R(r.range(1, 5)) : R(0.05 + r.unit() * 3); }
	R ang() { return fam == 1 ? R(r.range(-8, 8)) * R(0.78539816339744830962) : R((r.unit() * 2 - 1) * (r.chance(0.2) ? 20 : 3.2)); }
	// hues are periodic: any number is one
	R hue()
	{
		if (fam < 3 || r.chance(0.5)) return u() * R(360);
		static const double v[] = { -1e-9, -1e-6, -1e-20, -30, 360, 720, -360, 359.99999, 1e7, -1e7, 60, 300, 419, -0.0 };
		if (fam == 4 && r.chance(0.2)) { static const double w[] = { NAN, INFINITY, -INFINITY, 1e30 }; return R(w[r.below(4)]); }
		return R(v[r.below(14)]);
	}
	V2 v2() { R x = s(), y = s(); return V2(x, y); }
	V3 v3() { R x = s(), y = s(), z = s(); return V3(x, y, z); }
	V4 v4() { R x = s(), y = s(), z = s(), w = r.chance(0.5) ? R(1) : s(); return V4(x, y, z, w); }
	V3 dir()
	{
		if (r.chance(fam == 1 ? 0.7 : 0.15)) { V3 v(0); v[(Coord)r.below(3)] = r.chance(0.5) ? R(1) : R(-1); return v; }
		for (;;) { R x = R(r.unit() * 2 - 1), y = R(r.unit() * 2 - 1), z = R(r.unit() * 2 - 1); R l = x * x + y * y + z * z; if (l > R(0.01) && l < R(1)) { l = std::sqrt(l); return V3(x / l, y / l, z / l); } }
	}
	V2 dir2() { V3 d = dir(); R l = std::sqrt(d.x * d.x + d.y * d.y); return l > R(0.01) ? V2(d.x / l, d.y / l) : V2(1, 0); }
	Q q() { if (r.chance(0.1)) return Q::from(V3(0, 0, 1), R(0)); V3 d = dir(); return Q::from(d, ang()); }
	M2 r2() { M2 m; m.set(ang()); return m; }
	M3 r3() { M3 m; if (r.chance(0.1)) { m.setIdentity(); return m; } V3 d = dir(); m.set(d, ang()); return m; }
	M2 m2() { M2 m; switch (r.below(5)) { case 0: return r2(); case 1: m.setIdentity(); return m; case 2: m = r2(); m.scale(V2(pos(), pos())); return m; case 3: m = r2(); m.optimize(); return m; default: { V2 a = v2(), b = v2(); m.set(a, b); if (r.chance(0.5)) m.optimize(); return m; } } }
	M3 m3() { M3 m; switch (r.below(5)) { case 0: return r3(); case 1: m.setIdentity(); return m; case 2: m = r3(); m.scale(V3(pos(), pos(), pos())); return m; case 3: m = r3(); m.optimize(); return m; default: { V3 a = v3(), b = v3(), c = v3(); m.set(a, b, c); if (r.chance(0.5)) m.optimize(); return m; } } }
	M34 m34() { M34 m; V3 t = v3(); if (r.chance(0.1)) { m.setIdentity(); return m; } m.set(m3(), t); return m; }
	M34 r34() { M34 m; V3 t = v3(); m.set(r3(), t); return m; }
	M4 m4()
	{
		M4 m; V3 t = v3();
		switch (r.below(5))
		{
		case 0: { M3 c = r3(); m.set(c.x, c.y, c.z, t); m.optimize(); return m; }
		case 1: m.setIdentity(); return m;
		case 2: { M3 c = m3(); m.set(c.x, c.y, c.z, t); return m; }
		case 3: m.set(q(), t); m.optimize(); return m;
		default: { V4 a = v4(), b = v4(), c = v4(), d = v4(); m.set(a, b, c, d); return m; }
		}
	}
	template <class T> void dup(T* a, bool ulp)
	{
		for (int i = 1; i < PN; i += 2)
		{
			memcpy((void*)(a + i), (const void*)(a + i - 1), sizeof(T));
			int n = (int)(sizeof(T) / sizeof(R)), j = (int)r.below((u64)n);
			R* c = (R*)(a + i);
			if (ulp) { if (n >= 4) j = (int)r.below((u64)(n >= 16 ? 12 : n >= 9 ? 9 : 4)); c[j] = std::nextafter(c[j], R(2)); }
			else c[j] = r.chance(0.5) ? std::nextafter(c[j], R(2)) : -c[j];
		}
	}
	void go(Pool<R>& p)
	{
		memset((void*)&p, 0, sizeof p);
		for (int i = 0; i < PN; i++)
		{
			p.s[i] = s(); p.u[i] = u(); p.pos[i] = pos(); p.ang[i] = ang(); p.in[i] = (int)r.range(-100, 100);
			p.v2[i] = v2(); p.v3[i] = v3(); p.v4[i] = v4(); p.dir[i] = dir(); p.dir2[i] = dir2();
			p.m2[i] = m2(); p.m3[i] = m3(); p.m34[i] = m34(); p.m4[i] = m4(); p.q[i] = q();
			p.r2[i] = r2(); p.r3[i] = r3(); p.r34[i] = r34();
			V2 a = v2(), e = V2(pos(), pos()); p.b2[i] = B2(a, a + e); p.cb2[i] = CB2(v2(), e);
			V3 b = v3(), f = V3(pos(), pos(), pos()); p.b3[i] = B3(b, b + f); p.cb3[i] = CB3(v3(), f);
			p.ci[i] = Ci(v2(), pos()); p.sp[i] = Sp(v3(), pos()); p.pl[i] = Pl(dir(), s());
			p.l2[i] = L2::from(v2(), v2()); p.l3[i] = L3::from(v3(), v3());
			p.ry2[i] = R2::from(v2(), dir2()); p.ry3[i] = R3::from(v3(), dir()); p.t2[i] = Tri2<R>::from(v2(), v2(), v2());
			p.rgb[i] = RGB(u(), u(), u()); p.rgba[i] = RGBA(u(), u(), u(), u()); p.hsv[i] = HSV(hue(), u(), u());
			p.hs[i] = HS(v3(), v3(), v3(), v3()); p.bz[i] = BZ(v3(), v3(), v3(), v3());
			p.tol[i].normal = R(0.001) * u(); p.tol[i].orthogonal = R(0.001) * u(); p.tol[i].identity = R(0.001) * u();
			bool sing = r.chance(0.1);
			for (int j = 0; j < SYS; j++)
			{
				p.da[i][j] = s(); p.dc[i][j] = s(); p.dr[i][j] = s();
				p.db[i][j] = sing ? R(0) : (r.chance(0.5) ? R(1) : R(-1)) * (R(8) + pos());
			}
			for (int j = 0; j < GMAX * GMAX; j++) p.ga[i][j] = sing && j % 3 ? R(1) : s();
			if (fam == 4 && r.chance(0.25)) for (int j = 0; j < GMAX * GMAX; j++) p.ga[i][j] = R(NAN);
			for (int j = 0; j < PARR; j++) { p.p3[i][j] = v3(); p.p2[i][j] = v2(); p.p4[i][j] = v4(); }
			V3 c[8]; R n = pos() * R(0.2) + R(0.1), g = n + pos() + R(1);
			for (int j = 0; j < 8; j++) { R z = j < 4 ? n : g; c[j] = V3((j & 1) == ((j >> 1) & 1) ? -z : z, (j & 2) ? z : -z, z); }
			p.fr[i].set(p.r34[i], c);
		}
		if (fam == 2)
		{
			dup(p.s, false); dup(p.u, true); dup(p.pos, true); dup(p.ang, false); dup(p.v2, false); dup(p.v3, false); dup(p.v4, false); dup(p.dir, true); dup(p.dir2, true);
			dup(p.m2, true); dup(p.m3, true); dup(p.m34, true); dup(p.m4, true); dup(p.q, true); dup(p.r2, true); dup(p.r3, true); dup(p.r34, true);
			dup(p.b2, true); dup(p.b3, true); dup(p.cb2, true); dup(p.cb3, true); dup(p.ci, true); dup(p.sp, true); dup(p.pl, true);
			dup(p.l2, false); dup(p.l3, false); dup(p.ry2, true); dup(p.ry3, true); dup(p.t2, false);
			dup(p.rgb, true); dup(p.rgba, true); dup(p.hsv, true); dup(p.fr, true); dup(p.hs, false); dup(p.bz, false);
			dup(p.da, false); dup(p.db, true); dup(p.dc, false); dup(p.dr, false); dup(p.ga, false); dup(p.p3, false); dup(p.p2, false); dup(p.p4, false);
		}
	}
};
}

void pool_build(Pools& p, u64 seed, int fam)
{
	{ Rng r(mix64(seed, 0xf0 + fam)); Build<float> b = { r, fam }; b.go(p.f); }
	{ Rng r(mix64(seed, 0xf0 + fam)); Build<double> b = { r, fam }; b.go(p.d); }
}

#define K(C, N) rt_const_range(&C::N, sizeof(C::N));
template <class R> static void constants()
{
	typedef R Real; (void)sizeof(Real);
	OPS_TYPES
	K(M2, DefaultTolerance) K(M3, DefaultTolerance) K(M4, DefaultTolerance)
	K(V2, Zero) K(V2, OneX) K(V2, OneY) K(V3, Zero) K(V3, OneX) K(V3, OneY) K(V3, OneZ)
	K(V4, Zero) K(V4, OneX) K(V4, OneY) K(V4, OneZ) K(V4, OneW) K(V4, OneXnw) K(V4, OneYnw) K(V4, OneZnw)
	K(M2, Zero) K(M2, One) K(M3, Zero) K(M3, One) K(M34, Zero) K(M34, One) K(M4, Zero) K(M4, One) K(Q, One)
	K(B2, Zero) K(B2, One) K(B3, Zero) K(B3, One) K(CB2, One) K(CB3, One) K(Ci, One) K(Sp, One) K(Pl, XY) K(Pl, YZ) K(Pl, ZX)
	K(RGB, Black) K(RGB, White) K(RGB, Red) K(RGB, Green) K(RGB, Blue) K(RGBA, Black) K(RGBA, White) K(RGBA, Red) K(RGBA, Green) K(RGBA, Blue)
	K(HSV, Black) K(HSV, White) K(HSV, Red) K(HSV, Green) K(HSV, Blue)
	typedef Constants<R> C;
	K(C, PI) K(C, PI_TIMES_2) K(C, PI_OVER_2) K(C, PI_OVER_4) K(C, PI_OVER_8) K(C, PI_OVER_16) K(C, PI_OVER_3) K(C, PI_OVER_6) K(C, MIN_VALUE) K(C, MAX_VALUE) K(C, MAX_NEG_VALUE)
}
void pool_constants() { constants<float>(); constants<double>(); }
