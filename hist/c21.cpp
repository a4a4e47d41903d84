// C21: projectiles that fly in time slices through a world of moving bodies: what lines, rays and bodies report about each other.
#include "h.h"
using namespace mathlib;
namespace {
enum { BODIES, DRIFTS, AIMS, SLICES, LOOKS, BOXRAY, BOXRAYHIT, BOXLINE, BOXLINEHIT, BALLLINE, BALLHIT, GRAZED, WALLLINE, WALLHIT, WALLRAY, LANDED, SEAMS, PAIRS, PAIRHIT, TRIS, TRIIN, DISTS, ONLINE, UNSURE, SAVES, CRASHES };
const char* num(const L* v, int n) { static char s[4][120]; static int k; k = (k + 1) & 3; if (n == 2) snprintf(s[k], 120, "(%.9Lg, %.9Lg)", v[0], v[1]); else snprintf(s[k], 120, "(%.9Lg, %.9Lg, %.9Lg)", v[0], v[1], v[2]); return s[k]; }
struct Arr { L v[3] = { 0, 0, 0 }; L& operator[](int i) { return v[i]; } L operator[](int i) const { return v[i]; } };
template <class R> Arr arr(const Vec3<R>& a) { Arr r; r[0] = a.x; r[1] = a.y; r[2] = a.z; return r; }
template <class R> Arr arr(const Vec2<R>& a) { Arr r; r[0] = a.x; r[1] = a.y; return r; }
Arr sub(const Arr& a, const Arr& b) { Arr r; for (int i = 0; i < 3; i++) r[i] = a[i] - b[i]; return r; }
Arr mad(const Arr& a, const Arr& b, L t) { Arr r; for (int i = 0; i < 3; i++) r[i] = a[i] + b[i] * t; return r; }
L dot(const Arr& a, const Arr& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
L len(const Arr& a) { return sqrtl(dot(a, a)); }
L far(const Arr& a, const Arr& b) { Arr d = sub(a, b); return fmaxl(fabsl(d[0]), fmaxl(fabsl(d[1]), fabsl(d[2]))); }

// where a line through a box is inside
struct Span { bool out = false, none = true; L tn = -1e4000L, tf = 1e4000L; };
Span span(int n, const Arr& inf, const Arr& sup, const Arr& s, const Arr& d)
{
	Span r;
	for (int i = 0; i < n; i++)
	{
		if (d[i] == 0) { if (s[i] < inf[i] || s[i] > sup[i]) r.out = true; continue; }
		r.none = false;
		L a = (inf[i] - s[i]) / d[i], b = (sup[i] - s[i]) / d[i];
		r.tn = fmaxl(r.tn, fminl(a, b)); r.tf = fminl(r.tf, fmaxl(a, b));
	}
	return r;
}

template <class R> struct World
{
	typedef Vec3<R> V; typedef Vec2<R> V2;
	L eps = epsOf<R>();
	struct State
	{
		Sphere<R> ball[3]; Circle<R> disc[3]; AABB3<R> box[3]; AABB2<R> pad[3]; Plane<R> wall[2]; Tri2<R> tri[2];
		bool on[3] = { false, false, false }, won[2] = { false, false }, ton[2] = { false, false };
		V pos, vel;
		int side[2] = { 0, 0 }, run[2] = { 9, 9 }, count[2] = { 0, 0 }; // of the last way point on a known side of the wall; reports since
	};
	State w, saved;
	World()
	{
		w.pos = w.vel = V::Zero;
		for (auto& b : w.ball) b.set(V::Zero, R(0));
		saved = w;
	}

	// --- boxes
	template <class B, class RAY> bool boxRay(const B& b, const RAY& ray, int n, const char* what)
	{
		Arr s = arr(ray.start), d = arr(ray.direction);
		if (len(d) == 0) return true;
		ctr(BOXRAY);
		Span q = span(n, arr(b.inf), arr(b.sup), s, d);
		R t = R(-7), t1 = R(-7), t2 = R(-7);
		bool h = b.hits(t, ray), in = b.intersects(t1, t2, ray);
		ev(h); ev(in);
		L tol = 16 * eps * (fabsl(q.tn) + fabsl(q.tf));
		bool open = !q.out && fabsl(q.tf - q.tn) <= tol;
		if (open) { ctr(UNSURE); return true; }
		bool cross = !q.out && q.tn <= q.tf;
		bool wantH = cross && q.tn > 0, wantI = cross && q.tf > 0;
		if (!(cross && q.tn == 0) && h != wantH) { rep_violation("box", "%s %s a ray from %s along %s, which %s", what, h ? "is hit by" : "is not hit by", num(s.v, n), num(d.v, n), wantH ? "enters it" : cross ? "does not enter it" : "passes it"); return false; }
		if (!(cross && q.tf == 0) && in != wantI) { rep_violation("box", "%s %s a ray from %s along %s", what, in ? "intersects" : "does not intersect", num(s.v, n), num(d.v, n)); return false; }
		if (h && wantH)
		{
			ctr(BOXRAYHIT); evd(t);
			if (!(fabsl(t - q.tn) <= 16 * eps * fabsl(q.tn))) { rep_violation("box", "%s is entered at %.9Lg, not %.9Lg", what, (L)t, q.tn); return false; }
			Arr p = arr(ray.pointAt(t)), e = mad(s, d, q.tn);
			if (!(far(p, e) <= 64 * eps * (len(s) + fabsl(q.tn)))) { rep_violation("box", "the ray is at %s when it enters %s, not at %s", num(p.v, n), what, num(e.v, n)); return false; }
		}
		if (in && wantI)
		{
			L a = fmaxl(0, q.tn), c = q.tf;
			evd(t1); evd(t2);
			if (!(fabsl(t1 - a) <= 16 * eps * a && fabsl(t2 - c) <= 16 * eps * fabsl(c))) { rep_violation("box", "a ray is in %s from %.9Lg to %.9Lg, not from %.9Lg to %.9Lg", what, (L)t1, (L)t2, a, c); return false; }
		}
		return true;
	}
	template <class B, class LINE> bool boxLine(const B& b, const LINE& line, int n, const char* what)
	{
		Arr s = arr(line.start), e = arr(line.end), d = sub(e, s);
		if (len(d) == 0) return true;
		ctr(BOXLINE);
		Span q = span(n, arr(b.inf), arr(b.sup), s, d);
		R t = R(-7), t1 = R(-7), t2 = R(-7);
		bool h = b.hits(t, line), in = b.intersects(t1, t2, line);
		ev(h); ev(in);
		L tol = 16 * eps * (fabsl(q.tn) + fabsl(q.tf));
		if (!q.out && fabsl(q.tf - q.tn) <= tol) { ctr(UNSURE); return true; }
		bool cross = !q.out && q.tn <= q.tf;
		if (cross && fabsl(q.tn - 1) <= 16 * eps) { ctr(UNSURE); return true; }
		bool wantH = cross && q.tn > 0 && q.tn < 1, wantI = cross && q.tf > 0 && q.tn < 1;
		if (!(cross && q.tn == 0) && h != wantH) { rep_violation("box", "%s %s a segment from %s to %s, which %s", what, h ? "is hit by" : "is not hit by", num(s.v, n), num(e.v, n), wantH ? "enters it" : cross ? "does not enter it" : "passes it"); return false; }
		if (!(cross && q.tf == 0) && in != wantI) { rep_violation("box", "%s %s a segment from %s to %s", what, in ? "intersects" : "does not intersect", num(s.v, n), num(e.v, n)); return false; }
		if (h && wantH) { ctr(BOXLINEHIT); evd(t); if (!(fabsl(t - q.tn) <= 16 * eps * fabsl(q.tn))) { rep_violation("box", "%s is entered at %.9Lg of a segment, not %.9Lg", what, (L)t, q.tn); return false; } }
		if (in && wantI)
		{
			L a = fmaxl(0, q.tn), c = fminl(1, q.tf);
			evd(t1); evd(t2);
			if (!(fabsl(t1 - a) <= 16 * eps * a && fabsl(t2 - c) <= 16 * eps * fabsl(c))) { rep_violation("box", "a segment is in %s from %.9Lg to %.9Lg, not from %.9Lg to %.9Lg", what, (L)t1, (L)t2, a, c); return false; }
		}
		return true;
	}
	// --- spheres and circles
	template <class B, class VV> bool ballLine(const B& b, const VV& start, const VV& end, int n, const char* what)
	{
		Arr s = arr(start), e = arr(end), c = arr(b.center), ft = sub(e, s), cf = sub(s, c);
		L a = dot(ft, ft), r = b.radius;
		Line3<R> line = Line3<R>::from(V(start), V(end));
		VV hit, hit2; R t = R(-7), tt = R(-7);
		bool h = b.hits(hit, t, line), i1 = b.intersects(line), i2 = b.intersects(hit2, tt, line);
		ev(h);
		ctr(BALLLINE);
		if (h != i1 || h != i2) { rep_violation("ball", "%s is hit (%d), intersected (%d) and intersected with a point (%d) by the same segment", what, h, i1, i2); return false; }
		if (h && (arr(hit).v[0] != arr(hit2).v[0] || arr(hit).v[1] != arr(hit2).v[1] || arr(hit).v[2] != arr(hit2).v[2] || t != tt)) { rep_violation("ball", "%s is hit and intersected at different points", what); return false; }
		if (a == 0) { if (h) { rep_violation("ball", "%s is hit by a segment of no length", what); return false; } return true; }
		L bb = dot(ft, cf), cf2 = dot(cf, cf), disc = bb * bb - a * (cf2 - r * r), err = 32 * eps * a * (cf2 + r * r);
		if (disc < -err) { if (h) { rep_violation("ball", "%s is hit by a segment from %s to %s, which passes it", what, num(s.v, n), num(e.v, n)); return false; } return true; }
		if (disc <= err) { ctr(UNSURE); return true; }
		L root = sqrtl(disc), x = (-bb - root) / a, xe = (8 * eps * sqrtl(a * cf2) + fminl(sqrtl(err), err / root)) / a + 16 * eps * fabsl(x);
		if (fabsl(x) <= xe || fabsl(x - 1) <= xe) { ctr(UNSURE); return true; }
		bool want = x > 0 && x < 1;
		if (h != want) { rep_violation("ball", "%s %s a segment from %s to %s, which %s", what, h ? "is hit by" : "is not hit by", num(s.v, n), num(e.v, n), want ? "enters it" : "does not enter it"); return false; }
		if (!h) return true;
		ctr(BALLHIT); evd(t);
		if (!(fabsl(t - x) <= xe)) { rep_violation("ball", "%s is entered at %.9Lg of a segment, not %.9Lg", what, (L)t, x); return false; }
		Arr g = arr(hit), want3 = mad(s, ft, x);
		L tol = xe * sqrtl(a) + 16 * eps * (len(s) + len(e));
		if (!(far(g, want3) <= tol)) { rep_violation("ball", "%s is entered at %s, not %s", what, num(g.v, n), num(want3.v, n)); return false; }
		return true;
	}
	template <class B, class VV> bool ballPair(const B& p, const B& q, VV, int n, const char* what)
	{
		VV hit, hit2; R t = R(-7), t2;
		Arr a = arr(p.center), b = arr(q.center), d = sub(a, b);
		L dist = len(d), sum = (L)p.radius + q.radius, tol = 16 * eps * (dist + sum);
		bool i = p.intersects(q), j = q.intersects(p), k = p.intersects(hit, t, q), in = p.contains(q);
		ev(i); ctr(PAIRS);
		if (i != j) { rep_violation("pair", "%s intersects another, which does not intersect it", what); return false; }
		if (i != k) { rep_violation("pair", "%s intersects another with and without a point differently", what); return false; }
		if (fabsl(dist - sum) > tol && i != (dist < sum)) { rep_violation("pair", "%s at %.9Lg from another %s it, with radii of %.9Lg together", what, dist, i ? "intersects" : "does not intersect", sum); return false; }
		L room = (L)p.radius - q.radius;
		if (fabsl(dist - room) > tol && in != (dist < room)) { rep_violation("pair", "%s at %.9Lg from another %s it, with %.9Lg of room", what, dist, in ? "contains" : "does not contain", room); return false; }
		if (!k) return true;
		ctr(PAIRHIT); evd(t);
		if (!(fabsl(t - (sum - dist)) <= tol)) { rep_violation("pair", "%s reaches %.9Lg into another, not %.9Lg", what, (L)t, sum - dist); return false; }
		if (dist <= 4096 * eps * (len(a) + len(b)) || dist < 1e-6L * sum) return true;
		Arr want = mad(b, d, (L)q.radius / dist);
		if (!(far(arr(hit), want) <= 16 * eps * (q.radius + len(b)))) { Arr g = arr(hit); rep_violation("pair", "%s meets another at %s, not %s", what, num(g.v, n), num(want.v, n)); return false; }
		(void)t2; (void)hit2;
		return true;
	}
	// --- walls
	L wallTol(const Plane<R>& p, const Arr& a) const { return 16 * eps * (len(a) + fabsl((L)p.d)); }
	L wallDist(const Plane<R>& p, const Arr& a) const { return dot(arr(p.normal), a) - p.d; }
	bool wallLine(int i, const Line3<R>& line)
	{
		const Plane<R>& p = w.wall[i];
		Arr s = arr(line.start), e = arr(line.end);
		L ds = wallDist(p, s), de = wallDist(p, e), ts = wallTol(p, s), te = wallTol(p, e);
		V hit, hit2; R t = R(-7), t2 = R(-7);
		bool h = p.hits(hit, t, line), x = p.intersects(hit2, t2, line);
		ev(h); ev(x); ctr(WALLLINE);
		int a = ds > ts ? 1 : ds < -ts ? -1 : 0, b = de > te ? 1 : de < -te ? -1 : 0;
		if (a && b)
		{
			if (h != (a > 0 && b < 0)) { rep_violation("wall", "a segment from %.9Lg to %.9Lg of a wall %s it", ds, de, h ? "hits" : "does not hit"); return false; }
			if (x != (a != b)) { rep_violation("wall", "a segment from %.9Lg to %.9Lg of a wall %s it", ds, de, x ? "intersects" : "does not intersect"); return false; }
		}
		if (a < 0 && h) { rep_violation("wall", "a wall is hit by a segment that starts behind it"); return false; }
		if (b > 0 && h) { rep_violation("wall", "a wall is hit by a segment that ends in front of it"); return false; }
		if (h && !x) { rep_violation("wall", "a wall is hit by a segment that does not intersect it"); return false; }
		if (a && b && x)
		{
			ctr(WALLHIT);
			L at = ds / (ds - de), tol = (ts + te) / fabsl(ds - de);
			Arr want = mad(s, sub(e, s), at);
			L room = tol * len(sub(e, s)) + 16 * eps * (len(s) + len(e));
			evd(t2);
			if (!(fabsl(t2 - at) <= tol) || (h && !(fabsl(t - at) <= tol))) { rep_violation("wall", "a wall is crossed at %.9Lg of a segment, not %.9Lg", (L)t2, at); return false; }
			Arr g = arr(hit2), g1 = arr(hit);
			if (!(far(g, want) <= room) || (h && !(far(g1, want) <= room))) { rep_violation("wall", "a wall is crossed at %s, not %s", num(g.v, 3), num(want.v, 3)); return false; }
		}
		// a ball along the segment
		R rad = (R)fabsl((L)w.ball[0].radius);
		V hr; R tr = R(-7);
		bool hb = p.hits(hr, tr, line, rad);
		L rs = ds - rad, re = de - rad, rt = 16 * eps * rad;
		if (fabsl(rs) > ts + rt && fabsl(re) > te + rt)
		{
			if (hb != (rs > 0 && re < 0)) { rep_violation("wall", "a ball of radius %.9Lg that moves from %.9Lg to %.9Lg of a wall %s it", (L)rad, ds, de, hb ? "hits" : "does not hit"); return false; }
			if (hb)
			{
				L at = rs / (rs - re), tol = (ts + te + 2 * rt) / fabsl(rs - re);
				Arr want = mad(s, sub(e, s), at), g = arr(hr);
				if (!(fabsl(tr - at) <= tol) || !(far(g, want) <= tol * len(sub(e, s)) + 16 * eps * (len(s) + len(e)))) { rep_violation("wall", "a ball hits a wall at %.9Lg of its way, at %s, not at %.9Lg, %s", (L)tr, num(g.v, 3), at, num(want.v, 3)); return false; }
			}
		}
		// over the slices: from the front to the back through at most one way point on the wall is one hit
		w.count[i] += h;
		if (b)
		{
			if (w.side[i] && w.run[i] <= 1)
			{
				if (w.run[i] == 1) ctr(SEAMS);
				if (w.side[i] > 0 && b < 0 && w.count[i] != 1) { rep_violation("once", "a projectile that goes through a wall in slices hits it %d times", w.count[i]); return false; }
				if (w.side[i] < 0 && b > 0 && w.count[i] != 0) { rep_violation("once", "a projectile that goes through a wall from behind hits it %d times", w.count[i]); return false; }
			}
			w.side[i] = b; w.run[i] = 0; w.count[i] = 0;
		}
		else if (w.run[i] < 9) w.run[i]++;
		return true;
	}
	bool wallRay(const Plane<R>& p, const Ray3<R>& ray)
	{
		Arr s = arr(ray.start), d = arr(ray.direction);
		if (len(d) == 0) return true;
		L ds = wallDist(p, s), ts = wallTol(p, s), nd = dot(arr(p.normal), d);
		V hit, hit2; R t = R(-7), t2 = R(-7);
		bool h = p.hits(hit, t, ray), x = p.intersects(hit2, t2, ray);
		ev(h); ev(x); ctr(WALLRAY);
		if (h && !x) { rep_violation("wall", "a ray hits a wall that it does not intersect"); return false; }
		if (fabsl(nd) <= 64 * eps || fabsl(ds) <= ts) { ctr(UNSURE); if (h && nd > 64 * eps) { rep_violation("wall", "a ray hits the back of a wall"); return false; } return true; }
		L at = -ds / nd;
		if (x != (at > 0)) { rep_violation("wall", "a ray at %.9Lg from a wall, which leads %s it, %s", ds, at > 0 ? "to" : "away from", x ? "intersects it" : "does not intersect it"); return false; }
		if (h != (at > 0 && nd < 0)) { rep_violation("wall", "a ray at %.9Lg from a wall, with a slope of %.9Lg, %s", ds, nd, h ? "hits it" : "does not hit it"); return false; }
		if (!x) return true;
		ctr(WALLHIT); evd(t2);
		L tol = (ts + fabsl(at) * 16 * eps) / fabsl(nd);
		Arr want = mad(s, d, at), g = arr(hit2), g1 = arr(hit);
		if (!(fabsl(t2 - at) <= tol) || (h && !(fabsl(t - at) <= tol))) { rep_violation("wall", "a ray reaches a wall at %.9Lg, not %.9Lg", (L)t2, at); return false; }
		L room = tol + 16 * eps * (len(s) + fabsl(at));
		if (!(far(g, want) <= room) || (h && !(far(g1, want) <= room))) { rep_violation("wall", "a ray reaches a wall at %s, not %s", num(g.v, 3), num(want.v, 3)); return false; }
		return true;
	}
	bool wallBall(const Plane<R>& p, const Sphere<R>& b)
	{
		Arr c = arr(b.center);
		L d = wallDist(p, c), tol = wallTol(p, c) + 16 * eps * fabsl((L)b.radius);
		R dh = R(-7), di = R(-7);
		bool h = p.hits(dh, b), x = p.intersects(di, b);
		ev(h); ev(x); ctr(PAIRS);
		if (h && !x) { rep_violation("wall", "a wall is hit by a ball that does not intersect it"); return false; }
		if (fabsl(fabsl(d) - b.radius) > tol && x != (fabsl(d) < b.radius)) { rep_violation("wall", "a ball of radius %.9Lg at %.9Lg from a wall %s it", (L)b.radius, d, x ? "intersects" : "does not intersect"); return false; }
		if (fabsl(d) > tol && fabsl(d - b.radius) > tol && h != (d > 0 && d < b.radius)) { rep_violation("wall", "a ball of radius %.9Lg at %.9Lg from a wall %s it", (L)b.radius, d, h ? "hits" : "does not hit"); return false; }
		if ((x && !(fabsl(di - (b.radius - d)) <= tol)) || (h && !(fabsl(dh - (b.radius - d)) <= tol))) { rep_violation("wall", "a ball of radius %.9Lg at %.9Lg from a wall is %.9Lg deep", (L)b.radius, d, (L)(x ? di : dh)); return false; }
		if (x) ctr(PAIRHIT);
		return true;
	}
	// --- flat triangles
	bool triPoint(const Tri2<R>& t, const V2& p)
	{
		// the corners in any order
		return triPointOnce(t, p) && triPointOnce(Tri2<R>::from(t.c, t.b, t.a), p) && triPointOnce(Tri2<R>::from(t.b, t.c, t.a), p);
	}
	bool triPointOnce(const Tri2<R>& t, const V2& p)
	{
		ctr(TRIS);
		Arr q[3] = { arr(t.a), arr(t.b), arr(t.c) }, x = arr(p);
		int pos = 0, neg = 0;
		for (int i = 0; i < 3; i++)
		{
			const Arr &a = q[i], &b = q[(i + 1) % 3];
			L u = (b[0] - a[0]) * (x[1] - a[1]), v = (x[0] - a[0]) * (b[1] - a[1]), tol = 8 * eps * (fabsl(u) + fabsl(v));
			if (u - v > tol) pos++; else if (u - v < -tol) neg++;
		}
		bool in = t.contains(p);
		ev(in);
		if (in && pos && neg) { rep_violation("triangle", "a triangle contains %s, which is outside of it", num(x.v, 2)); return false; }
		if (!in && (pos == 3 || neg == 3)) { rep_violation("triangle", "a triangle does not contain %s, which is inside of it", num(x.v, 2)); return false; }
		if (pos + neg < 3 && !(pos && neg)) ctr(UNSURE);
		if (in) ctr(TRIIN);
		return true;
	}
	// --- distances
	template <class VV, class LINE, class RAY> bool dists(const VV& a, const VV& b, const VV& p, bool on, int n)
	{
		ctr(DISTS); if (on) ctr(ONLINE);
		LINE line = LINE::from(a, b);
		RAY ray = RAY::from(a, b - a);
		Arr s = arr(a), e = arr(b), x = arr(p), d = sub(e, s), o = sub(x, s);
		L l = len(d), gl = line.length(), gs = line.lengthSqr(), got = line.distance(p), gr = ray.distance(p), want, tol = 64 * eps * len(o);
		evd(gl); evd(got); evd(gr);
		if (!(fabsl(gl - l) <= 8 * eps * l && fabsl(gs - l * l) <= 8 * eps * l * l)) { rep_violation("length", "a line is %.9Lg long, not %.9Lg", gl, l); return false; }
		if (line.isNull() != (l == 0)) { rep_violation("length", "a line %.9Lg long is %s null", l, line.isNull() ? "" : "not"); return false; }
		if (l == 0)
		{
			if (!(fabsl(got - len(o)) <= tol)) { rep_violation("distance", "a point is %.9Lg from a line that is a point at %.9Lg", got, len(o)); return false; }
			return true;
		}
		Arr u; for (int i = 0; i < 3; i++) u[i] = d[i] / l;
		L along = dot(o, u);
		Arr perp = mad(o, u, -along);
		want = len(perp);
		if (!(fabsl(got - want) <= tol)) { rep_violation("distance", "a point is %.9Lg from a line, not %.9Lg", got, want); return false; }
		// behind the start, a point of the carrying line may be reported from the start
		bool behind = n == 3 && along < tol && want <= tol && fabsl(gr - len(o)) <= tol;
		if (!behind && !(fabsl(gr - want) <= tol)) { rep_violation("distance", "a point is %.9Lg from a ray, not %.9Lg", gr, want); return false; }
		return true;
	}
	template <class B> bool boxPair(const B& p, const B& q, int n, const char* what)
	{
		Arr a = arr(p.inf), b = arr(p.sup), c = arr(q.inf), d = arr(q.sup);
		bool want = true, in = true;
		for (int i = 0; i < n; i++) { if (c[i] > b[i] || d[i] < a[i]) want = false; if (c[i] < a[i] || d[i] > b[i]) in = false; }
		ctr(PAIRS); if (want) ctr(PAIRHIT);
		if (p.intersects(q) != want || q.intersects(p) != want) { rep_violation("pair", "%s %s another, or the other it", what, want ? "does not intersect" : "intersects"); return false; }
		if (p.contains(q) != in) { rep_violation("pair", "%s %s another", what, in ? "does not contain" : "contains"); return false; }
		return true;
	}
	void lost(int i) { w.side[i] = 0; w.run[i] = 9; w.count[i] = 0; }

	void run(const Plan& p)
	{
		int scale = (int)md(p.steps[0].arg(1), 17) - 8;
		R u = (R)ldexp(1, scale);
		auto V3at = [&](const Step& st, int k) { return V((R)fx(st.arg(k)) * u, (R)fx(st.arg(k + 1)) * u, (R)fx(st.arg(k + 2)) * u); };
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			g_sh->simtime_us += 10000;
			if (st.k == "body")
			{
				int i = (int)md(st.arg(0), 3);
				V c = V3at(st, 1); R r = (R)fx(md(st.arg(4), 8192)) * u;
				V h((R)fx(md(st.arg(5), 8192)) * u, (R)fx(md(st.arg(6), 8192)) * u, (R)fx(md(st.arg(7), 8192)) * u);
				ctr(BODIES);
				w.on[i] = true;
				w.ball[i].set(c, r); w.disc[i].set(V2(c.x, c.y), r);
				w.box[i].set(c - h, c + h); w.pad[i].set(V2(c.x - h.x, c.y - h.y), V2(c.x + h.x, c.y + h.y));
			}
			else if (st.k == "wall")
			{
				int i = (int)md(st.arg(0), 2);
				ctr(BODIES);
				V n = V3<R>(dirOf(st.arg(1), st.arg(2), st.arg(3)));
				w.wall[i] = st.arg(5) & 1 ? Plane<R>::from(V3at(st, 6), n) : Plane<R>::from(n, (R)fx(st.arg(4)) * u);
				w.won[i] = true; lost(i);
			}
			else if (st.k == "tri")
			{
				int i = (int)md(st.arg(0), 2);
				ctr(BODIES);
				w.tri[i] = Tri2<R>::from(V2((R)fx(st.arg(1)) * u, (R)fx(st.arg(2)) * u), V2((R)fx(st.arg(3)) * u, (R)fx(st.arg(4)) * u), V2((R)fx(st.arg(5)) * u, (R)fx(st.arg(6)) * u));
				w.ton[i] = true;
			}
			else if (st.k == "drift")
			{
				int i = (int)md(st.arg(0), 5);
				V t = V3at(st, 1);
				ctr(DRIFTS);
				if (i < 3) { w.ball[i] += t; w.disc[i] += V2(t.x, t.y); w.box[i] += t; w.pad[i] += V2(t.x, t.y); }
				else if (st.arg(4) & 1) { w.wall[i - 3].flip(); lost(i - 3); }
				else { w.wall[i - 3].move(t.x); lost(i - 3); }
			}
			else if (st.k == "aim")
			{
				ctr(AIMS);
				w.pos = V3at(st, 1);
				int i = (int)md(st.arg(4), 3), how = (int)md(st.arg(5), 6);
				V dir = V3<R>(dirOf(st.arg(6), st.arg(7), st.arg(8)) * (L)u);
				if (!w.on[i]) how = 0;
				L3 c = L3::of(w.ball[i].center), at;
				L3 un = dirOf(st.arg(6), st.arg(7), st.arg(8)).unit();
				switch (how)
				{
				case 0: w.vel = dir; break;
				case 1: w.vel = w.ball[i].center - w.pos; break;
				case 2: w.vel = V3<R>(c + un * (L)w.ball[i].radius - L3::of(w.pos)); break; // at a point of the ball
				case 3: // past the edge of the ball, or just into it
				{
					L3 to = c - L3::of(w.pos), side = to.cross(un).unit();
					L dist = to.len(), r = w.ball[i].radius;
					ctr(GRAZED);
					if (dist <= r) { w.vel = dir; break; }
					L k = 1 + (md(st.arg(9), 2) ? 1 : -1) * 256 * eps * (1 + md(st.arg(10), 4096));
					L h = r * dist / sqrtl(dist * dist - r * r) * k;
					w.vel = V3<R>(to + side * h); break;
				}
				case 4: // at a corner, an edge or a face of the box, or just beside it
				{
					ctr(GRAZED);
					L3 a = L3::of(w.box[i].inf), b = L3::of(w.box[i].sup); L q[3]; L A[3] = { a.x, a.y, a.z }, B[3] = { b.x, b.y, b.z }, K[3] = { (L)st.arg(6), (L)st.arg(7), (L)st.arg(8) };
					for (int k = 0; k < 3; k++) { i64 m = md((i64)K[k], 6); q[k] = m == 0 ? A[k] : m == 1 ? B[k] : A[k] + (B[k] - A[k]) * md((i64)K[k], 1025) / 1024; if (m < 2) q[k] += (B[k] - A[k] + fabsl(A[k])) * 256 * eps * (st.arg(9) % 64); }
					w.vel = V3<R>(L3(q[0], q[1], q[2]) - L3::of(w.pos));
					break;
				}
				default: { w.vel = V::Zero; int k = (int)md(st.arg(6), 3); R s = (R)fx(1 + md(st.arg(7), 8192)) * u; if (st.arg(8) & 1) s = -s; (k == 0 ? w.vel.x : k == 1 ? w.vel.y : w.vel.z) = s; } // along an axis
				}
				lost(0); lost(1);
			}
			else if (st.k == "fly")
			{
				ctr(SLICES);
				R dt = (R)fx(st.arg(1) % 4096);
				V end = w.pos + w.vel * dt;
				int k = (int)md(st.arg(2), 8);
				if (k < 2 && w.won[k])
				{
					// stop on the wall
					L3 n = L3::of(w.wall[k].normal), v = L3::of(w.vel);
					L f = n.dot(v), d = n.dot(L3::of(w.pos)) - w.wall[k].d;
					if (fabsl(f) > 1e-3L * v.len() && fabsl(d / f) < 64) { end = V3<R>(L3::of(w.pos) - v * (d / f)); ctr(LANDED); }
				}
				if (L3::of(end).maxabs() > 4096 * (L)u) { PUT(w.vel, -w.vel); end = w.pos; }
				Line3<R> l3 = Line3<R>::from(w.pos, end);
				V2 a(w.pos.x, w.pos.y), b(end.x, end.y);
				Line2<R> l2 = Line2<R>::from(a, b);
				for (int i = 0; i < 3; i++)
				{
					if (!w.on[i]) continue;
					if (!boxLine(w.box[i], l3, 3, "a box") || !boxLine(w.pad[i], l2, 2, "a flat box")) return;
					if (!ballLine(w.ball[i], w.pos, end, 3, "a ball") || !ballLine(w.disc[i], a, b, 2, "a disc")) return;
				}
				for (int i = 0; i < 2; i++) if (w.won[i] && !wallLine(i, l3)) return;
				w.pos = end;
			}
			else if (st.k == "look")
			{
				ctr(LOOKS);
				Ray3<R> r3 = Ray3<R>::from(w.pos, w.vel);
				Ray2<R> r2 = Ray2<R>::from(V2(w.pos.x, w.pos.y), V2(w.vel.x, w.vel.y));
				L l3 = len(arr(r3.direction)), l2 = len(arr(r2.direction));
				if (!w.vel.isNull() && !(fabsl(l3 - 1) <= 8 * eps)) { rep_violation("ray", "a ray has a direction of length %.9Lg", l3); return; }
				if ((w.vel.x != 0 || w.vel.y != 0) && !(fabsl(l2 - 1) <= 8 * eps)) { rep_violation("ray", "a ray has a direction of length %.9Lg", l2); return; }
				for (int i = 0; i < 3; i++) if (w.on[i] && (!boxRay(w.box[i], r3, 3, "a box") || !boxRay(w.pad[i], r2, 2, "a flat box"))) return;
				for (int i = 0; i < 2; i++) if (w.won[i] && !wallRay(w.wall[i], r3)) return;
			}
			else if (st.k == "pairs")
			{
				int i = (int)md(st.arg(1), 3), j = (i + 1) % 3;
				if (w.on[i] && w.on[j])
				{
					if (st.arg(2) & 1)
					{
						// bring them to touch, nearly
						L3 d = dirOf(st.arg(3), st.arg(4), st.arg(5)).unit();
						L r = (st.arg(2) & 2) ? (L)w.ball[i].radius + w.ball[j].radius : fabsl((L)w.ball[i].radius - w.ball[j].radius);
						L3 c = L3::of(w.ball[i].center) + d * (r * (1 + 64 * eps * st.arg(6)));
						w.ball[j].center = V3<R>(c);
						L3 e = L3(d.x, d.y, 0).unit();
						c = L3::of(w.ball[i].center) + e * (r * (1 + 64 * eps * st.arg(6)));
						w.disc[j].center = V2((R)c.x, (R)c.y);
					}
					if (!ballPair(w.ball[i], w.ball[j], V(), 3, "a ball") || !ballPair(w.disc[i], w.disc[j], V2(), 2, "a disc")) return;
					if (!boxPair(w.box[i], w.box[j], 3, "a box") || !boxPair(w.pad[i], w.pad[j], 2, "a flat box")) return;
				}
				int k = (int)md(st.arg(7), 2);
				if (w.on[i] && w.won[k])
				{
					if (st.arg(8) & 1)
					{
						L3 n = L3::of(w.wall[k].normal), c = L3::of(w.ball[i].center);
						L d = n.dot(c) - w.wall[k].d, r = w.ball[i].radius, want = md(st.arg(8), 6) < 2 ? r : md(st.arg(8), 6) < 4 ? -r : 0;
						w.ball[i].center = V3<R>(c + n * (want - d + (c.len() + r) * 64 * eps * (st.arg(6) % 64)));
					}
					if (!wallBall(w.wall[k], w.ball[i])) return;
				}
			}
			else if (st.k == "inside")
			{
				int i = (int)md(st.arg(0), 2);
				if (!w.ton[i]) continue;
				Arr a = arr(w.tri[i].a), b = arr(w.tri[i].b), c = arr(w.tri[i].c);
				L x = fx(st.arg(1) % 2048), y = fx(st.arg(2) % 2048), g = (st.arg(3) & 1) ? 256 * eps * (st.arg(4) % 256) : 0;
				if (st.arg(3) & 2) x = g; // beside an edge
				Arr q = a; q = mad(q, sub(b, a), x); q = mad(q, sub(c, a), y);
				if (!triPoint(w.tri[i], V2((R)q[0], (R)q[1]))) return;
				if (!triPoint(w.tri[i], V2(w.pos.x, w.pos.y))) return;
			}
			else if (st.k == "dist")
			{
				V a = V3at(st, 1), d = V3at(st, 4), b = a + d, q = V3at(st, 7);
				bool on = st.arg(10) & 1;
				if (st.arg(10) & 8) b = a;
				if (on) q = a + (b - a) * (R)ldexp(st.arg(10) & 2 ? -1 : 1, (int)md(st.arg(11), 8) - 4);
				if (st.arg(10) & 4) q = a;
				if (!dists<V, Line3<R>, Ray3<R>>(a, b, q, on, 3)) return;
				if (!dists<V2, Line2<R>, Ray2<R>>(V2(a.x, a.y), V2(b.x, b.y), V2(q.x, q.y), on, 2)) return;
				R t = (R)fx(st.arg(11));
				Line3<R> l = Line3<R>::from(a, b);
				Arr g = arr(l.pointAt(t)), want = mad(arr(a), sub(arr(b), arr(a)), t);
				if (!(far(g, want) <= 16 * eps * (1 + fabsl((L)t)) * (len(arr(a)) + len(arr(b))))) { rep_violation("length", "the point of a line at %.9Lg is %s, not %s", (L)t, num(g.v, 3), num(want.v, 3)); return; }
				Line2<R> l2 = Line2<R>::from(V2(a.x, a.y), V2(b.x, b.y));
				Arr g2 = arr(l2.pointAt(t)); want[2] = 0;
				if (!(far(g2, want) <= 16 * eps * (1 + fabsl((L)t)) * (len(arr(a)) + len(arr(b))))) { rep_violation("length", "the point of a flat line at %.9Lg is %s, not %s", (L)t, num(g2.v, 2), num(want.v, 2)); return; }
				// a line told over a double link and back is the same line
				if (l.template cast<double>().template cast<R>() != l || l2.template cast<double>().template cast<R>() != l2) { rep_violation("cast", "a line changes in a cast to double and back"); return; }
				Line3<double> ld = l.template cast<double>();
				if (far(arr(ld.start), arr(l.start)) != 0 || far(arr(ld.end), arr(l.end)) != 0) { rep_violation("cast", "a line changes in a cast to double"); return; }
				for (int i = 0; i < 2; i++) if (w.ton[i])
				{
					Tri2<double> td = w.tri[i].template cast<double>();
					if (far(arr(td.a), arr(w.tri[i].a)) != 0 || far(arr(td.b), arr(w.tri[i].b)) != 0 || far(arr(td.c), arr(w.tri[i].c)) != 0 || td.template cast<R>() != w.tri[i]) { rep_violation("cast", "a triangle changes in a cast"); return; }
				}
			}
			else if (st.k == "save") { ctr(SAVES); saved = w; }
			else if (st.k == "crash") { ctr(CRASHES); w = saved; }
		}
	}
};
}
const char* const names_C21[] = { "bodies, walls and triangles placed", "drifts", "aims", "time slices flown", "looks", "rays against boxes", "boxes entered by rays", "segments against boxes", "boxes entered by segments", "segments against balls", "balls entered", "aims beside an edge", "segments against walls", "walls crossed", "rays against walls", "slices that end on a wall", "walls crossed over two slices", "pairs", "pairs that touch", "points against triangles", "points in triangles", "distances", "points on the line", "answers too close to call", "checkpoints", "crashes with restore", nullptr };
void gen_C21(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1), r.chance(0.6) ? 8 : r.range(0, 16) });
	int n = (int)r.range(10, tier ? 200 : 100);
	auto any = [&]() { return r.chance(0.1) ? 0 : r.chance(0.3) ? r.range(-8, 8) * 1024 : r.range(-(1 << 13), 1 << 13); };
	auto body = [&](int i) { p.add("body", { i, any(), any(), any(), r.chance(0.05) ? 0 : r.range(1, 8191), r.chance(0.05) ? 0 : r.range(0, 8191), r.chance(0.05) ? 0 : r.range(0, 8191), r.chance(0.05) ? 0 : r.range(0, 8191) }); };
	auto wall = [&](int i) { p.add("wall", { i, any(), any(), any(), any(), r.range(0, 1), any(), any(), any() }); };
	auto tri = [&](int i) { p.add("tri", { i, any(), any(), any(), any(), any(), any() }); };
	auto aim = [&]() { p.add("aim", { 0, any(), any(), any(), r.range(0, 2), r.range(0, 5), any(), any(), any(), r.range(-64, 64), r.chance(0.5) ? r.range(0, 16) : r.range(0, 4095) }); };
	for (int i = 0; i < 3; i++) body(i);
	for (int i = 0; i < 2; i++) { wall(i); tri(i); }
	aim();
	p.add("save", { 0 });
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		if (u < 0.05) body((int)r.range(0, 2));
		else if (u < 0.08) wall((int)r.range(0, 1));
		else if (u < 0.10) tri((int)r.range(0, 1));
		else if (u < 0.16) p.add("drift", { r.range(0, 4), any(), any(), any(), r.range(0, 3) });
		else if (u < 0.30) aim();
		else if (u < 0.55) p.add("fly", { 0, r.chance(0.1) ? 0 : r.chance(0.2) ? 1024 : r.range(-1024, 4095), r.range(0, 7) });
		else if (u < 0.68) p.add("look", { 0 });
		else if (u < 0.78) p.add("pairs", { 0, r.range(0, 2), r.range(0, 3), any(), any(), any(), r.range(-64, 64), r.range(0, 1), r.range(0, 11) });
		else if (u < 0.86) p.add("inside", { r.range(0, 1), r.range(-512, 1536), r.range(-512, 1536), r.range(0, 3), r.range(-255, 255) });
		else if (u < 0.93) p.add("dist", { 0, any(), any(), any(), any(), any(), any(), any(), any(), any(), r.range(0, 15), r.range(-4096, 4096) });
		else if (u < 0.97) p.add("save", { 0 });
		else p.add("crash", { 0 });
	}
}
void exec_C21(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<double>)->run(p); else (new World<float>)->run(p);
}
