// C08 and C09: random scalars, vectors and colours under every sequence of draws. Compiled with access instrumentation.
#include "ops.h"

static double tolOf(double a, double b, int real) { double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b); return m * (real == 4 ? 1e-6 : 1e-13); }
static const double DRAWBOUND = 600;

struct Range { double lo, hi; bool integer; bool amp2; int real; };

template <class R> static double scalarReal(int f, R a, R b)
{
	switch (f)
	{
	case 0: return (double)mathlib::rand(b);
	case 1: return (double)randBetween(a, a + b);
	case 2: return (double)randAmplitude(b);
	default: return (double)randAmplitude(mathlib::abs(a), mathlib::abs(a) + b);
	}
}
static const char* const SCALAR[] = { "rand(int)", "randBetween(int,int)", "randAmplitude(int)", "randAmplitude(int,int)", "rand(float)", "randBetween(float,float)", "randAmplitude(float)", "randAmplitude(float,float)", "rand(double)", "randBetween(double,double)", "randAmplitude(double)", "randAmplitude(double,double)" };
static const char* const VECTOR[] = { "Vec2f::randomUnitVector", "Vec3f::randomUnitVector", "ColorRGBf::random", "ColorRGBAf::random", "ColorHSVf::random", "Vec2d::randomUnitVector", "Vec3d::randomUnitVector", "ColorRGBd::random", "ColorRGBAd::random", "ColorHSVd::random" };
int rnd_nscalar = 12, rnd_nvector = 10;
const char* rnd_name(int fn)
{
	if (fn >= 100) return VECTOR[(fn - 100) % 10];
	return SCALAR[(unsigned)fn % 12];
}

static double callScalar(int fn, i64 A, i64 B, Range& g)
{
	double v;
	g.amp2 = fn % 4 == 3; g.integer = fn < 4;
	if (B < 1) B = 1;
	if (A > 1000000) A = 1000000;
	if (A < -1000000) A = -1000000;
	rt_enter(SCALAR[fn]);
	if (fn < 4)
	{
		int b = B <= 30 ? (int)B : B > 1000000 ? 1000000000 : (int)B * 1000, a = (int)A;
		g.real = 0;
		if (fn == 3 && b > 900000000) b = 900000000;
		switch (fn)
		{
		case 0: v = mathlib::rand(b); g.lo = 0; g.hi = b - 1; break;
		case 1: v = randBetween(a, a + b); g.lo = a; g.hi = (double)a + b - 1; break;
		case 2: v = randAmplitude(b); g.lo = -b; g.hi = b - 1; break;
		default: a = a < 0 ? -a : a; v = randAmplitude(a, a + b); g.lo = a; g.hi = (double)a + b; break;
		}
	}
	else
	{
		double a = (double)A / 128, b = (double)B / 128;
		g.real = fn < 8 ? 4 : 8;
		if (fn < 8) { a = (float)a; b = (float)b; }
		switch (fn % 4)
		{
		case 0: g.lo = 0; g.hi = b; break;
		case 1: g.lo = a; g.hi = g.real == 4 ? (double)((float)a + (float)b) : a + b; break;
		case 2: g.lo = -b; g.hi = b; break;
		default: g.lo = std::fabs(a); g.hi = g.real == 4 ? (double)((float)g.lo + (float)b) : g.lo + b; break;
		}
		v = fn < 8 ? scalarReal<float>(fn % 4, (float)a, (float)b) : scalarReal<double>(fn % 4, a, b);
	}
	rt_leave();
	return v;
}
static void checkScalar(int fn, double v, const Range& g)
{
	double m = g.amp2 ? std::fabs(v) : v, e = g.integer ? 0 : tolOf(g.lo, g.hi, g.real);
	if (!(m >= g.lo - e && m <= g.hi + e))
		rep_violation("range", "%s delivered %.17g, outside %s%.17g to %.17g", SCALAR[fn], v, g.amp2 ? "magnitudes " : "", g.lo, g.hi);
	if (g.integer && v != std::floor(v)) rep_violation("range", "%s delivered %.17g", SCALAR[fn], v);
}

struct Vec { int n; double c[4]; int real; };
template <class R> static void callVec(int f, Vec& v, i64 A)
{
	v.real = (int)sizeof(R);
	switch (f)
	{
	case 0: { Vec2<R> x = Vec2<R>::randomUnitVector(); v.n = 2; v.c[0] = x.x; v.c[1] = x.y; break; }
	case 1: { Vec3<R> x = Vec3<R>::randomUnitVector(); v.n = 3; v.c[0] = x.x; v.c[1] = x.y; v.c[2] = x.z; break; }
	case 2: { ColorRGB<R> x = ColorRGB<R>::random(); v.n = 3; v.c[0] = x.r; v.c[1] = x.g; v.c[2] = x.b; break; }
	case 3: { ColorRGBA<R> x = A % 2 ? ColorRGBA<R>::random(R(0.25)) : ColorRGBA<R>::random(); v.n = 4; v.c[0] = x.r; v.c[1] = x.g; v.c[2] = x.b; v.c[3] = x.a; break; }
	default: { ColorHSV<R> x = ColorHSV<R>::random(); v.n = 3; v.c[0] = x.h; v.c[1] = x.s; v.c[2] = x.v; break; }
	}
}
static void checkVec(int fn, const Vec& v, i64 A)
{
	int f = fn % 5;
	double e = v.real == 4 ? 2e-6 : 1e-12;
	for (int i = 0; i < v.n; i++) if (!(std::fabs(v.c[i]) < 1e30)) rep_violation("invalid", "%s delivered a component that is not finite", VECTOR[fn]);
	if (f < 2)
	{
		double l = 0;
		for (int i = 0; i < v.n; i++) l += v.c[i] * v.c[i];
		l = std::sqrt(l);
		if (!(std::fabs(l - 1) <= 4 * e)) rep_violation("not-unit", "%s delivered a vector of length %.12g", VECTOR[fn], l);
	}
	else
		for (int i = 0; i < v.n; i++)
		{
			double hi = f == 4 && i == 0 ? 360 : 1;
			if (!(v.c[i] >= 0 && v.c[i] <= hi * (1 + e))) rep_violation("colour-range", "%s delivered component %d = %.12g, outside 0 to %g", VECTOR[fn], i, v.c[i], hi);
			if (f == 3 && i == 3 && v.c[i] != (A % 2 ? 0.25 : 1.0)) rep_violation("colour-alpha", "%s delivered alpha %.12g instead of the one asked for", VECTOR[fn], v.c[i]);
		}
}

void rnd_exec(int, const Step& s, bool cover)
{
	i64 fnA = s.arg(1), A = s.arg(2), B = s.arg(3), n = s.arg(4, 1);
	if (n < 1) n = 1;
	if (n > 4000) n = 4000;
	bool vec = fnA >= 100;
	int fn = vec ? (int)((u64)(fnA - 100) % 10) : (int)((u64)fnA % 12);
	if (!cover)
	{
		for (i64 i = 0; i < n && !rep_violated(); i++)
		{
			bool scripted = rt_draws_in_seg();
			u64 d0 = rt_draw_count();
			if (vec)
			{
				Vec v;
				rt_enter(VECTOR[fn]);
				if (fn < 5) callVec<float>(fn % 5, v, A); else callVec<double>(fn % 5, v, A);
				rt_leave();
				checkVec(fn, v, A);
			}
			else { Range g; double v = callScalar(fn, A, B, g); checkScalar(fn, v, g); }
			ctr(5); ctr(14, rt_draw_count() - d0);
			if (!scripted && rt_draw_count() - d0 > DRAWBOUND) rep_violation("undelivered", "%s needed %llu draws of a varying generator", vec ? VECTOR[fn] : SCALAR[fn], (unsigned long long)(rt_draw_count() - d0));
		}
		return;
	}
	// the whole generator range
	if (n < 2000) n = 2000;
	rt_draws_reset((u64)A * 31 + (u64)B);
	ctr(21);
	u64 d0 = rt_draw_count();
	if (!vec)
	{
		double mn = 1e300, mx = -1e300, mnm = 1e300, mxm = -1e300; Range g = Range();
		for (i64 i = 0; i < n; i++)
		{
			double v = callScalar(fn, A, B, g);
			checkScalar(fn, v, g);
			if (v < mn) mn = v;
			if (v > mx) mx = v;
			double m = std::fabs(v);
			if (m < mnm) mnm = m;
			if (m > mxm) mxm = m;
		}
		double slack = (g.hi - g.lo) / 64 + (g.amp2 && g.integer ? 1 : 0) + (g.integer ? 0 : tolOf(g.lo, g.hi, g.real));
		if (g.amp2)
		{
			if (!(mn < 0)) rep_violation("one-sign", "%s never delivered a negative value in %lld calls", SCALAR[fn], (long long)n);
			if (!(mx > 0)) rep_violation("one-sign", "%s never delivered a positive value in %lld calls", SCALAR[fn], (long long)n);
			if (mnm > g.lo + slack || mxm < g.hi - slack) rep_violation("ends", "%s delivered magnitudes %.9g to %.9g only, of %.9g to %.9g", SCALAR[fn], mnm, mxm, g.lo, g.hi);
		}
		else if (mn > g.lo + slack || mx < g.hi - slack) rep_violation("ends", "%s delivered %.9g to %.9g only, of %.9g to %.9g", SCALAR[fn], mn, mx, g.lo, g.hi);
	}
	else
	{
		unsigned seen = 0; double mn[4] = { 1e9, 1e9, 1e9, 1e9 }, mx[4] = { -1, -1, -1, -1 }; Vec v; v.n = 0;
		for (i64 i = 0; i < n; i++)
		{
			rt_enter(VECTOR[fn]);
			if (fn < 5) callVec<float>(fn % 5, v, A); else callVec<double>(fn % 5, v, A);
			rt_leave();
			checkVec(fn, v, A);
			unsigned m = 0;
			for (int j = 0; j < v.n; j++) { if (v.c[j] < 0) m |= 1u << j; if (v.c[j] < mn[j]) mn[j] = v.c[j]; if (v.c[j] > mx[j]) mx[j] = v.c[j]; }
			seen |= 1u << m;
		}
		if (fn % 5 < 2)
		{
			if (seen != (v.n == 2 ? 0xfu : 0xffu)) rep_violation("signs", "%s delivered only some of the sign combinations (set %x) in %lld calls", VECTOR[fn], seen, (long long)n);
		}
		else
			for (int j = 0; j < 3; j++)
			{
				double hi = fn % 5 == 4 && j == 0 ? 360 : 1;
				if (mn[j] > hi / 64 || mx[j] < hi * 63 / 64) rep_violation("ends", "%s component %d stayed within %.6g to %.6g", VECTOR[fn], j, mn[j], mx[j]);
			}
	}
	ctr(5, (u64)n); ctr(14, rt_draw_count() - d0);
}
