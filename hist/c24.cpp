// C24: lights whose colour is kept as RGB, RGBA and HSV replicas through fades, dimming, mixing, crashes and rebuilds.
#include "h.h"
using namespace mathlib;
namespace {
enum { SETS, BYTES, NAMED, GREYS, DIM, BRIGHT, MIX, UNMIX, FADERGB, FADEHSV, ENDS, WRAP, HUES, OUTSIDE, PALE, CONVERT, SECTORS, BYTEBACK, REBUILD, CASTS, SAVES, CRASHES, NL = 4 };

struct Ref { L r = 0, g = 0, b = 0; L max() const { return fmaxl(r, fmaxl(g, b)); } L min() const { return fminl(r, fminl(g, b)); } L mag() const { return fmaxl(fabsl(r), fmaxl(fabsl(g), fabsl(b))); } };
Ref refOf(L h, L s, L v)
{
	L q = fmodl(h, 360);
	if (q < 0) q += 360;
	auto f = [&](L n) { L k = fmodl(n + q / 60, 6); return v - v * s * fmaxl(0, fminl(1, fminl(k, 4 - k))); };
	Ref o; o.r = f(5); o.g = f(3); o.b = f(1); return o;
}

template <class R> struct World
{
	typedef ColorRGB<R> C; typedef ColorRGBA<R> A; typedef ColorHSV<R> H;
	struct Light { bool on = false; C c; A a; H h; Ref ref; L alpha = 1, err = 0; bool bytes = false; int byte[3]; };
	Light live[NL], saved[NL];
	L eps = epsOf<R>();

	static Ref of(const C& c) { Ref o; o.r = c.r; o.g = c.g; o.b = c.b; return o; }
	bool off(const Ref& x, const Ref& y, L tol) { tol += std::numeric_limits<R>::min(); return !(fabsl(x.r - y.r) <= tol && fabsl(x.g - y.g) <= tol && fabsl(x.b - y.b) <= tol); }
	static const char* num(const Ref& v) { static char s[4][96]; static int k; k = (k + 1) & 3; snprintf(s[k], 96, "(%.9Lg, %.9Lg, %.9Lg)", v.r, v.g, v.b); return s[k]; }
	bool bad(const char* cl, const char* what, const Ref& got, const Ref& want, L tol)
	{
		evd(got.r); evd(got.g); evd(got.b);
		if (!off(got, want, tol)) return false;
		rep_violation(cl, "%s is %s, not %s (tolerance %.3Lg)", what, num(got), num(want), tol);
		return true;
	}
	// conversions of one colour, in every direction
	bool convert(const C& c)
	{
		ctr(CONVERT);
		Ref x = of(c);
		L M = x.mag(), tol = 24 * eps * M + 4 * std::numeric_limits<R>::denorm_min();
		H h = c.toHSV();
		evd(h.h); evd(h.s); evd(h.v);
		if (!(h.h >= 0 && h.h <= 360 && h.s >= 0 && h.s <= 1 && h.v == x.max())) { rep_violation("range", "%s has hue %.9Lg, saturation %.9Lg and value %.9Lg", num(x), (L)h.h, (L)h.s, (L)h.v); return false; }
		if (x.max() == x.min()) { ctr(GREYS); if (h.s != 0) { rep_violation("range", "the grey %.9Lg has saturation %.9Lg", x.r, (L)h.s); return false; } }
		if (bad("round trip", "HSV of a colour", refOf(h.h, h.s, h.v), x, tol)) return false;
		if (bad("round trip", "a colour converted to HSV and back", of(h.toRGB()), x, 2 * tol)) return false;
		A a = c.toRGBA(), b = c.toRGBA(R(0.25)), d = h.toRGBA(R(0.75)), e = h.toRGBA();
		if (a.a != 1 || b.a != R(0.25) || d.a != R(0.75) || e.a != 1 || !(a.toRGB() == c) || b.toRGB() != c || !(d.toRGB() == h.toRGB()) || !(a.toHSV() == h) || b.toHSV() != h) { rep_violation("alpha", "conversions of %s through RGBA differ", num(x)); return false; }
		return true;
	}
	bool fromHSV(const H& h)
	{
		ctr(SECTORS);
		return !bad("sector", "RGB of an HSV colour", of(h.toRGB()), refOf(h.h, h.s, h.v), (24 + fabsl(h.h) / 10) * eps * fabsl(h.v));
	}
	bool check(Light& l)
	{
		L tol = l.err + 8 * eps * l.ref.mag();
		if (bad("agree", "the RGB replica", of(l.c), l.ref, tol) || bad("agree", "the RGBA replica", of(l.a.toRGB()), l.ref, tol) || bad("agree", "the HSV replica", refOf(l.h.h, l.h.s, l.h.v), l.ref, tol)) return false;
		if (!(fabsl(l.a.a - l.alpha) <= 16 * eps + l.err)) { rep_violation("alpha", "alpha is %.9Lg, not %.9Lg", (L)l.a.a, l.alpha); return false; }
		const R *p = l.c.data(), *q = l.a.data(), *w = l.h.data();
		if (p[0] != l.c.r || p[1] != l.c.g || p[2] != l.c.b || q[0] != l.a.r || q[1] != l.a.g || q[2] != l.a.b || q[3] != l.a.a || w[0] != l.h.h || w[1] != l.h.s || w[2] != l.h.v) { rep_violation("data", "the data view differs from the colour"); return false; }
		if (l.bytes)
		{
			ctr(BYTEBACK);
			C c = l.h.toRGB();
			for (int k = 0; k < 3; k++) if (lroundl((L)c.data()[k] * 255) != l.byte[k]) { rep_violation("bytes", "a component of %d comes back as %.9Lg through HSV", l.byte[k], (L)c.data()[k] * 255); return false; }
		}
		return convert(l.c) && convert(l.a.toRGB()) && fromHSV(l.h);
	}
	void adopt(Light& l, const C& c, R alpha, L err) { l.c = c; l.a = c.toRGBA(alpha); l.h = c.toHSV(); l.ref = of(c); l.alpha = alpha; l.err = err; }
	void fresh(Light& l, const Step& st)
	{
		l = Light(); l.on = true;
		R alpha = (R)((double)md(st.arg(6), 257) / 256);
		ctr(SETS);
		if (md(st.arg(1), 4) == 0)
		{
			ctr(BYTES);
			for (int k = 0; k < 3; k++) l.byte[k] = (int)md(st.arg(2 + k), 256);
			int al = (int)md(st.arg(6), 256);
			l.bytes = true;
			C c(l.byte[0], l.byte[1], l.byte[2]);
			adopt(l, c, R(al) / R(255), 32 * eps);
			l.a = A(l.byte[0], l.byte[1], l.byte[2], al);
			if (A(l.byte[0], l.byte[1], l.byte[2]).a != 1) rep_violation("alpha", "a colour of bytes is not opaque");
			return;
		}
		if (md(st.arg(1), 4) == 1)
		{
			ctr(NAMED);
			static const int which[] = { 0, 1, 2, 3, 4 };
			int n = which[md(st.arg(2), 5)];
			l.c = n == 0 ? C::Black : n == 1 ? C::White : n == 2 ? C::Red : n == 3 ? C::Green : C::Blue;
			l.a = n == 0 ? A::Black : n == 1 ? A::White : n == 2 ? A::Red : n == 3 ? A::Green : A::Blue;
			l.h = n == 0 ? H::Black : n == 1 ? H::White : n == 2 ? H::Red : n == 3 ? H::Green : H::Blue;
			l.ref.r = n == 1 || n == 2; l.ref.g = n == 1 || n == 3; l.ref.b = n == 1 || n == 4;
			return;
		}
		R unit = (R)ldexp(1, (int)md(st.arg(5), 25) - 20), x[3];
		for (int k = 0; k < 3; k++) x[k] = (R)((double)md(st.arg(2 + k), 1025) / 1024) * unit;
		if (st.arg(1) & 4) x[1] = x[0];
		if (st.arg(1) & 8) x[2] = st.arg(1) & 16 ? x[1] : std::nextafter(x[0], R(2));
		C c(x[0], x[1], x[2]);
		if (st.arg(1) & 32) { c = C(x[2] + 1, x[0] + 1, x[1] + 1); c.set(x[0], x[1], x[2]); }
		adopt(l, c, alpha, 64 * eps * (L)unit);
		if (st.arg(1) & 64) { l.a = A(x[2] + 1, x[0] + 1, x[1] + 1, alpha + 1); l.c = C(x[1] + 1, x[2] + 1, x[0] + 1); l.a.set(x[0], x[1], x[2], alpha); l.c.set(C(x[0], x[1], x[2])); H b = l.h; l.h = H(b.h + 1, b.s + 1, b.v + 1); l.h.set(b.h, b.s, b.v); }
	}
	void run(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			Light& l = live[md(st.arg(0), NL)];
			bool cp = st.arg(7) & 1;
			g_sh->simtime_us += 20000;
			if (st.k == "set") { fresh(l, st); if (!check(l)) return; continue; }
			if (st.k == "save") { ctr(SAVES); for (int k = 0; k < NL; k++) saved[k] = live[k]; continue; }
			if (st.k == "crash") { ctr(CRASHES); for (int k = 0; k < NL; k++) { live[k] = saved[k]; if (live[k].on && !check(live[k])) return; } continue; }
			if (st.k == "hues")
			{
				// hues beyond a turn, just beside the sector boundaries, and backwards
				R h = (R)(60.0 * (double)(st.arg(1) % 13)), s = (R)((double)md(st.arg(2), 257) / 256), v = (R)((double)md(st.arg(3), 257) / 256);
				i64 n = st.arg(4) % 4;
				for (i64 k = 0; k < (n < 0 ? -n : n); k++) h = std::nextafter(h, n < 0 ? R(-1e9) : R(1e9));
				if (st.arg(4) & 64) h = (R)fx(st.arg(1) * 1024 % (1 << 20));
				ctr(HUES);
				if (h < 0 || h > 360) ctr(OUTSIDE);
				if (!fromHSV(H(h, s, v))) return;
				if (h == h && !convert(H(h, s, v).toRGB())) return;
				continue;
			}
			if (!l.on) continue;
			if (st.k == "dim")
			{
				R k = (R)(0.25 + (double)md(st.arg(1), 1025) / 1024);
				if (l.ref.mag() * k > 16 || l.ref.mag() * k < 1e-9L) continue;
				ctr(k < 1 ? DIM : BRIGHT);
				l.bytes = false;
				bool div = st.arg(2) & 1;
				if (div && l.ref.mag() / k > 16) continue;
				if (div) { if (cp) { PUT(l.c, l.c / k); l.a = l.a / k; } else { l.c /= k; l.a /= k; } l.h.v /= k; l.ref.r /= k; l.ref.g /= k; l.ref.b /= k; l.err /= k; }
				else { if (cp) { PUT(l.c, l.c * k); l.a = l.a * k; } else { l.c *= k; l.a *= k; } l.h.v *= k; l.ref.r *= k; l.ref.g *= k; l.ref.b *= k; l.err *= k; }
				l.err += 8 * eps * l.ref.mag();
			}
			else if (st.k == "mix")
			{
				// add another colour, and perhaps take it away again
				Light& o = live[md(st.arg(1), NL)];
				if (!o.on || l.ref.mag() + o.ref.mag() > 16) continue;
				C oc = o.c; A oa = o.a;
				ctr(MIX);
				l.bytes = false;
				L e = l.err + o.err + 8 * eps * (l.ref.mag() + o.ref.mag());
				Ref was = l.ref; Ref orf = o.ref;
				if (cp) { PUT(l.c, l.c + oc); l.a = l.a + oa; } else { l.c += oc; l.a += oa; }
				l.ref.r += orf.r; l.ref.g += orf.g; l.ref.b += orf.b;
				l.err = e;
				l.h = l.c.toHSV(); l.err += 24 * eps * l.ref.mag();
				if (!check(l)) return;
				if (st.arg(2) & 1)
				{
					ctr(UNMIX);
					if (cp) { PUT(l.c, l.c - oc); l.a = l.a - oa; } else { l.c -= oc; l.a -= oa; }
					l.ref = was;
					if (!(fabsl(l.a.a - l.alpha) <= 16 * eps + l.err)) { rep_violation("alpha", "alpha is %.9Lg after a mix and its undo, not %.9Lg", (L)l.a.a, l.alpha); return; }
					if (bad("undo", "a colour mixed and taken apart", of(l.c), was, 2 * l.err) || bad("undo", "an RGBA colour mixed and taken apart", of(l.a.toRGB()), was, 2 * l.err)) return;
					C n = -l.c; A na = -l.a;
					if (n.r != -l.c.r || n.g != -l.c.g || n.b != -l.c.b || na.r != -l.a.r || na.g != -l.a.g || na.b != -l.a.b || na.a != l.a.a) { rep_violation("negate", "the negative of a colour is wrong"); return; }
					// rounding may leave a component just below zero: start again from the colour it stands for
					C c((R)fmaxl(was.r, 0), (R)fmaxl(was.g, 0), (R)fmaxl(was.b, 0));
					adopt(l, c, l.a.a, 64 * eps * fmaxl(1e-9L, was.mag()));
				}
			}
			else if (st.k == "fadergb" || st.k == "fadehsv")
			{
				Light& o = live[md(st.arg(1), NL)];
				if (!o.on) continue;
				R t = (R)((double)md(st.arg(2), 1025) / 1024);
				if (st.arg(3) == 1) t = 0; if (st.arg(3) == 2) t = 1; if (st.arg(3) == 3) t = epsOf<R>(); if (st.arg(3) == 4) t = 1 - std::numeric_limits<R>::epsilon();
				if (t == 0 || t == 1) ctr(ENDS);
				l.bytes = false;
				if (st.k == "fadergb")
				{
					ctr(FADERGB);
					C oc = o.c, lc = l.c; A oa = o.a, la = l.a;
					L big = fmaxl(l.ref.mag(), o.ref.mag()), e = fmaxl(l.err, o.err) + 8 * eps * big;
					Ref x; L T = t;
					x.r = lc.r + (oc.r - (L)lc.r) * T; x.g = lc.g + (oc.g - (L)lc.g) * T; x.b = lc.b + (oc.b - (L)lc.b) * T;
					if (cp) { l.c = C::fromInterp(lc, oc, t); l.a = A::fromInterp(la, oa, t); } else { l.c.interp(l.c, oc, t); l.a.interp(l.a, oa, t); }
					if (bad("fade", "a fade in RGB", of(l.c), x, 8 * eps * big)) return;
					if ((t == 0 && !(l.c == lc && l.a == la)) || (t == 1 && !(l.c == oc && l.a == oa))) { rep_violation("fade", "the end of a fade in RGB is not the end colour"); return; }
					L al = la.a + (oa.a - (L)la.a) * T;
					if (!(fabsl(l.a.a - al) <= 8 * eps)) { rep_violation("alpha", "a fade of alpha from %.9Lg to %.9Lg by %.9Lg is %.9Lg", (L)la.a, (L)oa.a, T, (L)l.a.a); return; }
					l.alpha = al;
					l.ref.r += (o.ref.r - l.ref.r) * T; l.ref.g += (o.ref.g - l.ref.g) * T; l.ref.b += (o.ref.b - l.ref.b) * T;
					l.err = e + 32 * eps * big;
					// keep the components from falling below zero through rounding
					l.c.set(mathlib::max(l.c.r, R(0)), mathlib::max(l.c.g, R(0)), mathlib::max(l.c.b, R(0)));
					l.a.set(mathlib::max(l.a.r, R(0)), mathlib::max(l.a.g, R(0)), mathlib::max(l.a.b, R(0)), l.a.a);
					l.h = l.c.toHSV();
				}
				else
				{
					ctr(FADEHSV);
					H oh = o.h, lh = l.h;
					L d = (L)oh.h - lh.h, T = t;
					if (fabsl(d) > 180) { ctr(WRAP); d += d < 0 ? 360 : -360; }
					if (cp) l.h = H::fromInterp(lh, oh, t); else l.h.interp(l.h, oh, t);
					L want = lh.h + d * T, offh = fabsl(remainderl(l.h.h - want, 360)), alt = fabsl(remainderl(l.h.h - (lh.h - d * T), 360)), tol = 16 * eps * 360;
					if (fabsl(fabsl(d) - 180) <= tol) offh = fminl(offh, alt);
					evd(l.h.h);
					if (!(l.h.h >= 0 && l.h.h <= 360 && offh <= tol)) { rep_violation("fade", "a hue fading from %.9Lg to %.9Lg by %.9Lg is %.9Lg", (L)lh.h, (L)oh.h, T, (L)l.h.h); return; }
					L s = lh.s + ((L)oh.s - lh.s) * T, v = lh.v + ((L)oh.v - lh.v) * T;
					if (!(fabsl(l.h.s - s) <= 8 * eps && fabsl(l.h.v - v) <= 8 * eps * fmaxl(fabsl(lh.v), fabsl(oh.v)) + std::numeric_limits<R>::min())) { rep_violation("fade", "a fade in HSV by %.9Lg gives saturation %.9Lg and value %.9Lg, not %.9Lg and %.9Lg", T, (L)l.h.s, (L)l.h.v, s, v); return; }
					if ((t == 0 && !(l.h == lh)) || (t == 1 && l.h != oh)) { rep_violation("fade", "the end of a fade in HSV is not the end colour"); return; }
					l.ref = refOf(l.h.h, l.h.s, l.h.v);
					l.c = l.h.toRGB(); l.a = l.h.toRGBA(l.a.a);
					l.err = 64 * eps * l.ref.mag();
				}
			}
			else if (st.k == "pale")
			{
				// less saturated: the same in both spaces
				R k = (R)((double)md(st.arg(1), 1025) / 1024);
				ctr(PALE);
				l.bytes = false;
				C hot = l.c; L m = l.ref.max();
				l.h.s *= k;
				l.ref.r = m - (m - l.ref.r) * k; l.ref.g = m - (m - l.ref.g) * k; l.ref.b = m - (m - l.ref.b) * k;
				R mx = mathlib::max(hot.r, mathlib::max(hot.g, hot.b));
				l.c.interp(C(mx), hot, k); l.a.interp(A(mx, l.a.a), l.a, k);
				l.err = 2 * l.err + 32 * eps * m;
				l.c.set(mathlib::max(l.c.r, R(0)), mathlib::max(l.c.g, R(0)), mathlib::max(l.c.b, R(0)));
			}
			else if (st.k == "rebuild")
			{
				ctr(REBUILD);
				switch (md(st.arg(1), 6))
				{
				case 0: l.c = l.a.toRGB(); break;
				case 1: l.c = l.h.toRGB(); break;
				case 2: l.h = l.c.toHSV(); break;
				case 3: l.h = l.a.toHSV(); break;
				case 4: l.a = l.c.toRGBA((R)l.alpha); break;
				default: l.a = l.h.toRGBA((R)l.alpha); break;
				}
				l.err += 32 * eps * l.ref.mag();
			}
			else if (st.k == "cast")
			{
				ctr(CASTS);
				C c = l.c.template cast<double>().template cast<R>(); A a = l.a.template cast<double>().template cast<R>(); H h = l.h.template cast<double>().template cast<R>();
				if (c != l.c || a != l.a || h != l.h) { rep_violation("cast", "a colour cast to double and back has changed"); return; }
				C d = l.c; d.data()[md(st.arg(1), 3)] += R(1); A e = l.a; e.data()[md(st.arg(1), 4)] += R(1); H f = l.h; f.data()[md(st.arg(1), 3)] += R(1);
				if (d == l.c || e == l.a || f == l.h || !(d != l.c) || !(e != l.a) || !(f != l.h)) { rep_violation("compare", "colours that differ compare equal"); return; }
				C g; g.set(l.c); A i; i.set(l.a); H j; j.set(l.h);
				if (!(g == l.c) || !(i == l.a) || !(j == l.h) || g != l.c || i != l.a || j != l.h) { rep_violation("compare", "a copy compares unequal"); return; }
			}
			if (l.err > 1e-3L * fmaxl(l.ref.mag(), 1e-9L)) { C c = l.c; adopt(l, c, l.a.a, 64 * eps * fmaxl(l.ref.mag(), 1e-9L)); }
			if (!check(l)) return;
		}
	}
};
}
const char* const names_C24[] = { "colours set", "colours set from bytes", "named colours", "greys converted", "dimmings", "brightenings", "mixes", "mixes undone", "fades in RGB", "fades in HSV", "fades to an end", "fades across hue zero", "hues beside a sector boundary", "hues outside a turn", "desaturations", "conversions checked", "sectors checked", "bytes recovered through HSV", "replicas rebuilt", "casts and comparisons", "checkpoints", "crashes with restore", nullptr };
void gen_C24(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	int n = (int)r.range(8, tier ? 120 : 60), nl = (int)r.range(1, NL);
	auto big = [&]() { return r.chance(0.15) ? 0 : r.chance(0.15) ? 1024 : r.range(0, 1024); };
	auto set = [&](int i) { p.add("set", { i, r.range(0, 127), big(), big(), big(), r.chance(0.7) ? 20 : r.range(0, 24), r.range(0, 256), 0 }); };
	for (int i = 0; i < nl; i++) set(i);
	p.add("save", { 0 });
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		int a = (int)r.range(0, nl - 1), b = (int)r.range(0, nl - 1), cp = (int)r.range(0, 1), sp = r.chance(0.25) ? (int)r.range(1, 4) : 0;
		if (u < 0.12) set(a);
		else if (u < 0.22) p.add("dim", { a, r.range(0, 1024), r.range(0, 1), 0, 0, 0, 0, cp });
		else if (u < 0.30) p.add("mix", { a, b, r.range(0, 1), 0, 0, 0, 0, cp });
		else if (u < 0.40) p.add("fadergb", { a, b, r.range(0, 1024), sp, 0, 0, 0, cp });
		else if (u < 0.54) p.add("fadehsv", { a, b, r.range(0, 1024), sp, 0, 0, 0, cp });
		else if (u < 0.70) p.add("hues", { a, r.range(-1000, 1000), big(), big(), r.range(-100, 100) });
		else if (u < 0.76) p.add("pale", { a, r.range(0, 1024) });
		else if (u < 0.86) p.add("rebuild", { a, r.range(0, 5) });
		else if (u < 0.92) p.add("cast", { a, r.range(0, 11) });
		else if (u < 0.96) p.add("save", { 0 });
		else p.add("crash", { 0 });
	}
}
void exec_C24(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<double>)->run(p); else (new World<float>)->run(p);
}
