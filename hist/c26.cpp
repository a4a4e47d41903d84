// C26: culling by a camera that moves, zooms, is split into tiles, saved, crashed and restored; planes that move and flip.
#include "h.h"
using namespace mathlib;
namespace {
enum { SHAPES, TURNS, MOVES, ZOOMS, SETS, TILES, POINTS, INSIDE, OUTSIDE, UNSURE, NEARFACE, SPHERES, CONTAINED, REACHED, CULLED, TILEPTS, CASTS, PLANES, FLIPS, PROJECT, CORNERS, FLAT, SAVES, CRASHES };
struct LP { L3 n; L d = 0; L dist(const L3& p) const { return n.dot(p) - d; } };

template <class R> struct World
{
	typedef Vec3<R> V; typedef Plane<R> P; typedef Mat34<R> M;
	struct Cam { bool on = false; V local[8]; M ltw; Frustum<R> f, tile[2]; bool tiled = false; R cut = 0; int axis = 0; };
	struct Pl { bool on = false; P p; LP ref; L err = 0; };
	Cam cam, scam;
	Pl pl[3], spl[3];
	L eps = epsOf<R>();

	static const char* num(const L3& v) { static char s[4][96]; static int k; k = (k + 1) & 3; snprintf(s[k], 96, "(%.9Lg, %.9Lg, %.9Lg)", v.x, v.y, v.z); return s[k]; }
	static L size(const Frustum<R>& f) { L s = 0; for (auto& c : f.corners) s = fmaxl(s, L3::of(c).maxabs()); return s; }
	// the faces, outwards, from the corners; with the error a face may have
	struct Faces { LP p[6]; L tol[6]; bool good = true; };
	Faces faces(const Frustum<R>& f)
	{
		static const int Q[6][4] = { { 4, 5, 6, 7 }, { 1, 0, 3, 2 }, { 3, 7, 6, 2 }, { 3, 0, 4, 7 }, { 1, 5, 4, 0 }, { 1, 2, 6, 5 } };
		Faces r;
		L3 mid;
		L S = size(f);
		for (auto& c : f.corners) mid = mid + L3::of(c) * (1.0L / 8);
		for (int i = 0; i < 6; i++)
		{
			L3 c[4], m;
			for (int k = 0; k < 4; k++) { c[k] = L3::of(f.corners[Q[i][k]]); m = m + c[k] * 0.25L; }
			L3 n = (c[2] - c[0]).cross(c[3] - c[1]);
			L area = n.len();
			if (area <= 0) { r.good = false; return r; }
			n = n * (1 / area);
			if (n.dot(mid - m) > 0) n = n * -1;
			r.p[i].n = n; r.p[i].d = n.dot(m);
			// corners are rounded to eps S; a plane through three of them swings with the size of the smallest face triangle
			L small = 1e300L, edge = 0;
			for (int k = 0; k < 4; k++) { L3 a = c[(k + 1) & 3] - c[k], b = c[(k + 2) & 3] - c[k]; small = fminl(small, a.cross(b).len()); edge = fmaxl(edge, fmaxl(a.len(), b.len())); }
			// height of the flattest triangle
			L h = small / edge;
			if (!(h > 4096 * eps * S)) { r.good = false; return r; }
			r.tol[i] = 64 * eps * S / h; // radians of swing
		}
		// the near plane is taken to be parallel to the far one
		r.tol[1] = fmaxl(r.tol[1], r.tol[0]);
		return r;
	}
	bool planesOf(const Frustum<R>& f)
	{
		static const char* const NAME[] = { "far", "near", "left", "top", "right", "bottom" };
		Faces q = faces(f);
		L S = size(f);
		if (!q.good) { ctr(FLAT); return true; }
		for (int i = 0; i < 6; i++)
		{
			L3 n = L3::of(f.planes[i].normal);
			ev3(n); evd(f.planes[i].d);
			if (!((n - q.p[i].n).len() <= q.tol[i] && fabsl(f.planes[i].d - q.p[i].d) <= (q.tol[i] + 16 * eps) * 4 * S)) { rep_violation("plane", "the %s plane is %s at %.9Lg, not %s at %.9Lg", NAME[i], num(n), (L)f.planes[i].d, num(q.p[i].n), q.p[i].d); return false; }
		}
		return true;
	}
	// where a point lies: 1 inside, -1 outside, 0 too close to call
	int where(const Frustum<R>& f, const Faces& q, const L3& p, L reach, int* face = nullptr)
	{
		L S = fmaxl(size(f), p.maxabs());
		bool sure = true;
		for (int i = 0; i < 6; i++)
		{
			L d = q.p[i].dist(p) - reach, tol = (q.tol[i] + 16 * eps) * 4 * S + 8 * eps * fabsl(reach);
			if (d > tol) { if (face) *face = i; return -1; }
			if (d > -tol) sure = false;
		}
		return sure ? 1 : 0;
	}
	bool probe(const Frustum<R>& f, const V& p, const char* whose)
	{
		Faces q = faces(f);
		if (!q.good) return true;
		ctr(POINTS);
		int face = -1, w = where(f, q, L3::of(p), 0, &face);
		ctr(w > 0 ? INSIDE : w < 0 ? OUTSIDE : UNSURE);
		bool in = f.contains(p), in4 = f.contains(Vec4<R>(p.x, p.y, p.z, R(1)));
		ev(in);
		if (in != in4) { rep_violation("point", "%s contains a point as Vec3 (%d) and as Vec4 (%d) differently", whose, in, in4); return false; }
		if (w && in != (w > 0)) { rep_violation("point", "%s %s %s, %s", whose, in ? "contains" : "does not contain", num(L3::of(p)), w > 0 ? "which is inside" : "which is outside"); return false; }
		return true;
	}
	bool ball(const Frustum<R>& f, const V& c, R r, const char* whose)
	{
		Faces q = faces(f);
		if (!q.good) return true;
		ctr(SPHERES);
		Sphere<R> s(c, r);
		bool in = f.contains(s), touch = f.intersects(s);
		int wi = where(f, q, L3::of(c), -(L)r), wt = where(f, q, L3::of(c), r);
		ev(in); ev(touch);
		if (wi > 0) ctr(CONTAINED); if (wt > 0) ctr(REACHED); if (wt < 0) ctr(CULLED);
		if (wi && in != (wi > 0)) { rep_violation("sphere", "%s %s the sphere at %s of radius %.9Lg", whose, in ? "contains" : "does not contain", num(L3::of(c)), (L)r); return false; }
		if (wt && touch != (wt > 0)) { rep_violation("sphere", "%s %s the sphere at %s of radius %.9Lg", whose, touch ? "intersects" : "does not intersect", num(L3::of(c)), (L)r); return false; }
		if (in && !touch) { rep_violation("sphere", "%s contains a sphere that it does not intersect", whose); return false; }
		if (in && !f.contains(c)) { rep_violation("sphere", "%s contains a sphere but not its centre", whose); return false; }
		if (f.contains(c) && !touch) { rep_violation("sphere", "%s contains the centre of a sphere that it does not intersect", whose); return false; }
		return true;
	}
	L3 at(const V* c, L x, L y, L z) const
	{
		// x, y, z in 0..1: left to right, bottom to top, near to far
		L3 n = (L3::of(c[2]) * (1 - x) + L3::of(c[1]) * x) * (1 - y) + (L3::of(c[3]) * (1 - x) + L3::of(c[0]) * x) * y;
		L3 f = (L3::of(c[6]) * (1 - x) + L3::of(c[5]) * x) * (1 - y) + (L3::of(c[7]) * (1 - x) + L3::of(c[4]) * x) * y;
		return n * (1 - z) + f * z;
	}
	bool refresh(int how)
	{
		ctr(SETS);
		V w[8];
		cam.ltw.transform(w, cam.local, 8);
		Mat4<R> m4(cam.ltw.rs.x, cam.ltw.rs.y, cam.ltw.rs.z, cam.ltw.t);
		switch (how)
		{
		case 0: cam.f.set(w); break;
		case 1: cam.f.set(cam.ltw, cam.local); break;
		case 2: cam.f.set(m4, cam.local); break;
		default: cam.f = Frustum<R>(w); break;
		}
		L S = 0;
		for (auto& c : cam.local) S = fmaxl(S, L3::of(c).maxabs());
		LM r = LM::of(cam.ltw.rs); L3 t = L3::of(cam.ltw.t);
		for (int i = 0; i < 8; i++)
		{
			L3 want = r * L3::of(cam.local[i]) + t;
			if (!((L3::of(cam.f.corners[i]) - want).maxabs() <= 32 * eps * (S * r.norm() + t.maxabs()))) { rep_violation("corner", "corner %d is at %s, not %s", i, num(L3::of(cam.f.corners[i])), num(want)); return false; }
		}
		cam.tiled = false;
		return planesOf(cam.f);
	}
	bool plane(Pl& p)
	{
		L tol = p.err;
		ev3(L3::of(p.p.normal)); evd(p.p.d);
		if (!((L3::of(p.p.normal) - p.ref.n).maxabs() <= 16 * eps && fabsl(p.p.d - p.ref.d) <= tol)) { rep_violation("history", "a plane is %s at %.9Lg, not %s at %.9Lg", num(L3::of(p.p.normal)), (L)p.p.d, num(p.ref.n), p.ref.d); return false; }
		return true;
	}
	void run(const Plan& p)
	{
		for (auto& st : p.steps)
		{
			if (rep_violated()) return;
			for (char ch : st.k) shape((unsigned char)ch);
			g_sh->simtime_us += 16667;
			auto V3at = [&](int k, int sc) { R u = (R)ldexp(1, sc); return V((R)fx(st.arg(k)) * u, (R)fx(st.arg(k + 1)) * u, (R)fx(st.arg(k + 2)) * u); };
			if (st.k == "shape")
			{
				int sc = (int)md(st.arg(8), 17) - 8;
				R u = (R)ldexp(1, sc), w = (R)fx(64 + md(st.arg(1), 4096)) * u, h = (R)fx(64 + md(st.arg(2), 4096)) * u, k = (R)fx(64 + md(st.arg(3), 4096));
				R zn = (R)fx(md(st.arg(4), 4096)) * u, len = (R)fx(64 + md(st.arg(5), 16384)) * u, ox = (R)(st.arg(6) % 3) * w / 4, oy = (R)(st.arg(7) % 3) * h / 4;
				if (st.arg(9) & 1) { ox = oy = 0; }
				if (st.arg(9) & 2) k = 1; // a box
				R zf = zn + len;
				V c[8] = { V(ox + w, oy + h, -zn), V(ox + w, oy - h, -zn), V(ox - w, oy - h, -zn), V(ox - w, oy + h, -zn), V(k * (ox + w), k * (oy + h), -zf), V(k * (ox + w), k * (oy - h), -zf), V(k * (ox - w), k * (oy - h), -zf), V(k * (ox - w), k * (oy + h), -zf) };
				cam = Cam(); cam.on = true;
				for (int i = 0; i < 8; i++) cam.local[i] = c[i];
				cam.ltw.setIdentity();
				ctr(SHAPES);
				if (!refresh((int)md(st.arg(9), 4))) return;
			}
			else if (st.k == "turn" || st.k == "move" || st.k == "zoom")
			{
				if (!cam.on) continue;
				if (st.k == "turn")
				{
					ctr(TURNS);
					R a = (R)fx(st.arg(4) % 6434);
					if (st.arg(5) & 4) cam.ltw.rotate(V3<R>(dirOf(st.arg(1), st.arg(2), st.arg(3)).unit()), a);
					else if (st.arg(5) & 8) cam.ltw.rotatePre(V3<R>(dirOf(st.arg(1), st.arg(2), st.arg(3)).unit()), a);
					else { static const Coord C[] = { Coord::X, Coord::Y, Coord::Z }; cam.ltw.rotate(C[md(st.arg(1), 3)], a); }
				}
				else if (st.k == "move") { ctr(MOVES); V t = V3at(1, (int)md(st.arg(4), 13) - 6); if (st.arg(5) & 4) cam.ltw.translate(t); else cam.ltw.translatePre(t); }
				else
				{
					ctr(ZOOMS);
					auto k = [&](int i) { return (R)fx(512 + md(st.arg(i), 1024)); };
					V s(k(1), k(2), k(3));
					LM r = LM::of(cam.ltw.rs);
					if (r.norm() > 64 || r.norm() < 1.0L / 64) continue;
					// scaled along its own axes
					cam.ltw.scalePre(s);
				}
				if (L3::of(cam.ltw.t).maxabs() > 4096) { cam.ltw.setIdentity(); }
				if (!refresh((int)md(st.arg(5), 4))) return;
			}
			else if (st.k == "tile")
			{
				if (!cam.on || !faces(cam.f).good) continue;
				cam.axis = (int)md(st.arg(1), 3);
				cam.cut = (R)fx(128 + md(st.arg(2), 768));
				ctr(TILES);
				V lo[8], hi[8];
				static const L X[8] = { 1, 1, 0, 0, 1, 1, 0, 0 }, Y[8] = { 1, 0, 0, 1, 1, 0, 0, 1 }, Z[8] = { 0, 0, 0, 0, 1, 1, 1, 1 };
				for (int i = 0; i < 8; i++)
				{
					L a[3] = { X[i], Y[i], Z[i] }, b[3] = { X[i], Y[i], Z[i] };
					a[cam.axis] *= cam.cut;
					if (b[cam.axis] == 0) b[cam.axis] = cam.cut;
					lo[i] = V3<R>(at(cam.f.corners, a[0], a[1], a[2])); hi[i] = V3<R>(at(cam.f.corners, b[0], b[1], b[2]));
				}
				cam.tile[0].set(lo); cam.tile[1].set(hi);
				cam.tiled = true;
				if (!planesOf(cam.tile[0]) || !planesOf(cam.tile[1])) return;
			}
			else if (st.k == "point" || st.k == "face" || st.k == "far")
			{
				if (!cam.on) continue;
				L x = fx(md(st.arg(1), 1025)), y = fx(md(st.arg(2), 1025)), z = fx(md(st.arg(3), 1025));
				if (st.k == "far") { x = 3 * x - 1; y = 3 * y - 1; z = 3 * z - 1; }
				L3 w = at(cam.f.corners, x, y, z);
				if (st.k == "face")
				{
					// a point pressed onto one face and then moved a little in or out
					Faces q = faces(cam.f);
					if (!q.good) continue;
					ctr(NEARFACE);
					int i = (int)md(st.arg(4), 6);
					L S = fmaxl(size(cam.f), w.maxabs()), tol = (q.tol[i] + 16 * eps) * 4 * S;
					w = w - q.p[i].n * q.p[i].dist(w) + q.p[i].n * (tol * (st.arg(5) & 1 ? 1.5L : -1.5L) * (1 + md(st.arg(5), 64) * md(st.arg(5), 64)));
				}
				V at = V3<R>(w);
				if (!probe(cam.f, at, "the frustum")) return;
				if (cam.tiled)
				{
					ctr(TILEPTS);
					if (!probe(cam.tile[0], at, "the first tile") || !probe(cam.tile[1], at, "the second tile")) return;
				}
				if (st.arg(6) & 1)
				{
					ctr(CASTS);
					Frustum<double> d = cam.f.template cast<double>();
					for (int i = 0; i < 8; i++) if (L3::of(d.corners[i]).x != (L)cam.f.corners[i].x || L3::of(d.corners[i]).y != (L)cam.f.corners[i].y || L3::of(d.corners[i]).z != (L)cam.f.corners[i].z) { rep_violation("cast", "corner %d changes in a cast to double", i); return; }
					for (int i = 0; i < 6; i++) if ((L)d.planes[i].d != (L)cam.f.planes[i].d || (L3::of(d.planes[i].normal) - L3::of(cam.f.planes[i].normal)).maxabs() != 0) { rep_violation("cast", "plane %d changes in a cast to double", i); return; }
					Frustum<R> back = d.template cast<R>();
					for (int i = 0; i < 8; i++) if (back.corners[i] != cam.f.corners[i]) { rep_violation("cast", "corner %d changes in a cast to double and back", i); return; }
					for (int i = 0; i < 6; i++) if (back.planes[i] != cam.f.planes[i]) { rep_violation("cast", "plane %d changes in a cast to double and back", i); return; }
				}
			}
			else if (st.k == "ball")
			{
				if (!cam.on) continue;
				L x = 1.5L * fx(md(st.arg(1), 1025)) - 0.25L, y = 1.5L * fx(md(st.arg(2), 1025)) - 0.25L, z = 1.5L * fx(md(st.arg(3), 1025)) - 0.25L;
				L3 w = at(cam.f.corners, x, y, z);
				Faces q = faces(cam.f);
				if (!q.good) continue;
				L r = size(cam.f) * fx(md(st.arg(4), 512));
				if (st.arg(5) & 1)
				{
					// just touching, or just contained by, one face
					int i = (int)md(st.arg(6), 6);
					L d = fabsl(q.p[i].dist(w)), S = fmaxl(size(cam.f), w.maxabs()), tol = (q.tol[i] + 16 * eps) * 4 * S + 8 * eps * d;
					r = fmaxl(0, d + tol * (st.arg(5) & 2 ? 1.5L : -1.5L));
				}
				V c = V3<R>(w);
				if (!ball(cam.f, c, (R)r, "the frustum")) return;
				if (cam.tiled && (!ball(cam.tile[0], c, (R)r, "the first tile") || !ball(cam.tile[1], c, (R)r, "the second tile"))) return;
			}
			else if (st.k == "plane")
			{
				Pl& o = pl[md(st.arg(0), 3)];
				int sc = (int)md(st.arg(7), 13) - 6, how = (int)md(st.arg(8), 10);
				V n = V3<R>(dirOf(st.arg(1), st.arg(2), st.arg(3)) * (L)ldexp(1, sc - 6)), a = V3at(4, sc), b = a + V3<R>(dirOf(st.arg(9), st.arg(10), st.arg(11)) * (L)ldexp(1, sc - 9));
				o = Pl(); o.on = true;
				L3 ln = L3::of(n), la = L3::of(a), u = L3::of(b - a), v = ln;
				ctr(PLANES);
				switch (how)
				{
				case 0: case 1: { R d = (R)fx(st.arg(4)); if (how) o.p.set(n, d); else o.p = P::from(n, d); o.ref.n = ln.unit(); o.ref.d = d; break; }
				case 2: case 3: { if (how & 1) o.p.set(a, n); else o.p = P::from(a, n); o.ref.n = ln.unit(); o.ref.d = o.ref.n.dot(la); break; }
				case 4: case 5: case 6: case 7:
				{
					// from tangents or three points, if they are not nearly in line
					L3 x = u.cross(v);
					V c = a + n;
					if (how >= 6) { u = L3::of(b) - la; v = L3::of(c) - la; x = u.cross(v); }
					if (!(x.len() > 0.25L * u.len() * v.len()) || fminl(u.len(), v.len()) < fmaxl(la.maxabs(), L3::of(c).maxabs()) / 64) { o.on = false; break; }
					if (how == 4) o.p.setFromPointAndTangents(a, b - a, n); else if (how == 5) o.p = P::fromPointAndTangents(a, b - a, n); else if (how == 6) o.p.set(a, b, c); else o.p = P::from(a, b, c);
					o.ref.n = x.unit(); o.ref.d = o.ref.n.dot(la);
					if (!((L3::of(o.p.normal) - o.ref.n).maxabs() <= 4096 * eps)) { rep_violation("plane", "a plane through points or tangents faces %s, not %s", num(L3::of(o.p.normal)), num(o.ref.n)); return; }
					if (!(fabsl(o.p.d - L3::of(o.p.normal).dot(la)) <= 16 * eps * la.len())) { rep_violation("plane", "a plane misses its point by %.9Lg", o.p.d - L3::of(o.p.normal).dot(la)); return; }
					o.ref.n = L3::of(o.p.normal); o.ref.d = o.p.d;
					break;
				}
				default: { static const P* const N[] = { &P::XY, &P::YZ, &P::ZX }; int k = (int)md(st.arg(4), 3); R d = (R)fx(st.arg(5)); if (how == 8) o.p.set(*N[k], d); else o.p = P::from(*N[k], d); o.ref.n = L3(k == 1, k == 2, k == 0); o.ref.d = d; }
				}
				o.err = 16 * eps * (fabsl(o.ref.d) + la.len());
				if (o.on && !plane(o)) return;
			}
			else if (st.k == "shift")
			{
				Pl& o = pl[md(st.arg(0), 3)];
				if (!o.on) continue;
				R d = (R)fx(st.arg(1));
				switch (md(st.arg(2), 6))
				{
				case 0: o.p.move(d); o.ref.d += d; break;
				case 1: PUT(o.p, o.p.moved(d)); o.ref.d += d; break;
				case 2: ctr(FLIPS); o.p.flip(); o.ref.n = o.ref.n * -1; o.ref.d = -o.ref.d; break;
				case 3: ctr(FLIPS); PUT(o.p, o.p.flipped()); o.ref.n = o.ref.n * -1; o.ref.d = -o.ref.d; break;
				case 4: { P q = o.p; o.p.set(q, d); o.ref.d += d; break; }
				default: o.p = P::from(o.p, d); o.ref.d += d; break;
				}
				o.err += 4 * eps * (fabsl(o.ref.d) + fabsl((L)d));
				if (!plane(o)) return;
			}
			else if (st.k == "project")
			{
				Pl& o = pl[md(st.arg(0), 3)];
				if (!o.on) continue;
				V at = V3at(1, (int)md(st.arg(4), 13) - 6), q;
				ctr(PROJECT);
				// against the plane as it stands
				L3 n = L3::of(o.p.normal);
				L d = n.dot(L3::of(at)) - o.p.d, tol = 16 * eps * (L3::of(at).len() + fabsl(o.p.d));
				R got = o.p.distance(at), t = o.p.project(q, at);
				evd(got);
				if (!(fabsl(got - d) <= tol && fabsl(t - d) <= tol)) { rep_violation("distance", "a point is %.9Lg from a plane by distance and %.9Lg by projection, not %.9Lg", (L)got, (L)t, d); return; }
				if (!((L3::of(q) - (L3::of(at) - n * d)).maxabs() <= 4 * tol)) { rep_violation("distance", "the projection of a point is %s, not %s", num(L3::of(q)), num(L3::of(at) - n * d)); return; }
				{
					// slanted
					V dir = V3<R>(dirOf(st.arg(2), st.arg(5), st.arg(1)).unit() * ldexpl(1, (int)md(st.arg(1) + st.arg(3), 25) - 12)), g;
					L f = n.dot(L3::of(dir)), dl = L3::of(dir).len();
					if (fabsl(f) > 0.001L * dl)
					{
						L3 land = L3::of(at) - L3::of(dir) * (d / f);
						if (!o.p.project(g, at, dir) || !((L3::of(g) - land).maxabs() <= 16 * (tol * dl / fabsl(f) + eps * fabsl(d) * dl * dl / (f * f)))) { rep_violation("distance", "the slanted projection of a point is %s, not %s", num(L3::of(g)), num(land)); return; }
						ev3(L3::of(g));
					}
				}
				R room = (R)fx(md(st.arg(5), 4096));
				bool in = o.p.contains(at, room), far = o.p.contains(q, (R)(8 * tol));
				if (!far) { rep_violation("distance", "a projected point is not on its plane"); return; }
				if (fabsl(fabsl(d) - room) > tol && in != (fabsl(d) < room)) { rep_violation("distance", "a point at distance %.9Lg is %s within %.9Lg of a plane", d, in ? "reported" : "not reported", (L)room); return; }
				if (q == at && got != 0 && fabsl(d) > 4 * tol) { rep_violation("distance", "a projection does nothing"); return; }
			}
			else if (st.k == "meet")
			{
				if (!pl[0].on || !pl[1].on || !pl[2].on) continue;
				V x;
				int a = (int)md(st.arg(1), 3), b = (a + 1 + (int)(st.arg(2) & 1)) % 3, c = 3 - a - b;
				const P &A = pl[a].p, &B = pl[b].p, &C = pl[c].p;
				L3 na = L3::of(A.normal), nb = L3::of(B.normal), nc = L3::of(C.normal);
				L det = na.cross(nb).dot(nc), D = fabsl(A.d) + fabsl(B.d) + fabsl(C.d);
				bool ok = P::intersectAtSinglePoint(x, A, B, C);
				ctr(CORNERS);
				ev(ok); ev3(L3::of(x));
				if (fabsl(det) > 1.01e-4L && !ok) { rep_violation("corner", "three planes of determinant %.9Lg do not meet", det); return; }
				if (fabsl(det) < 0.99e-4L && ok) { rep_violation("corner", "three planes of determinant %.9Lg meet", det); return; }
				if (!ok) { ctr(FLAT); if (!x.isNull()) { rep_violation("corner", "planes that do not meet have the common point %s", num(L3::of(x))); return; } continue; }
				L3 want = (nb.cross(nc) * A.d + nc.cross(na) * B.d + na.cross(nb) * C.d) * (1 / det);
				L tol = 64 * eps * (D + want.len()) / fabsl(det);
				if (!((L3::of(x) - want).maxabs() <= tol)) { rep_violation("corner", "three planes meet at %s, not %s (tolerance %.3Lg)", num(L3::of(x)), num(want), tol); return; }
			}
			else if (st.k == "save") { ctr(SAVES); scam = cam; for (int k = 0; k < 3; k++) spl[k] = pl[k]; }
			else if (st.k == "crash") { ctr(CRASHES); cam = scam; for (int k = 0; k < 3; k++) pl[k] = spl[k]; if (cam.on && !refresh((int)md(st.arg(1), 4))) return; }
		}
	}
};
}
const char* const names_C26[] = { "frustum shapes", "camera turns", "camera moves", "camera zooms", "frustum updates", "frustums split into tiles", "points tested", "points inside", "points outside", "points too close to call", "points beside a face", "spheres tested", "spheres contained", "spheres reached", "spheres culled", "points tested against tiles", "casts", "planes set", "planes flipped", "projections", "three-plane corners", "flat shapes", "checkpoints", "crashes with restore", nullptr };
void gen_C26(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	int n = (int)r.range(8, tier ? 120 : 60);
	auto any = [&]() { return r.chance(0.1) ? 0 : r.range(-(1 << 14), 1 << 14); };
	auto shp = [&]() { p.add("shape", { 0, r.range(0, 4095), r.range(0, 4095), r.range(0, 4095), r.range(0, 4095), r.range(0, 16383), r.range(-2, 2), r.range(-2, 2), r.chance(0.7) ? 8 : r.range(0, 16), r.range(0, 3) }); };
	auto pln = [&](int i) { p.add("plane", { i, any(), any(), any(), any(), any(), any(), r.chance(0.7) ? 6 : r.range(0, 12), r.range(0, 9), any(), any(), any() }); };
	shp();
	for (int i = 0; i < 3; i++) pln(i);
	p.add("save", { 0 });
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		if (u < 0.04) shp();
		else if (u < 0.12) p.add("turn", { 0, any(), any(), any(), r.chance(0.2) ? 1608 : r.range(-6433, 6433), r.range(0, 15) });
		else if (u < 0.18) p.add("move", { 0, any(), any(), any(), r.range(0, 12), r.range(0, 7) });
		else if (u < 0.21) p.add("zoom", { 0, r.range(0, 1023), r.range(0, 1023), r.range(0, 1023), 0, r.range(0, 3) });
		else if (u < 0.26) p.add("tile", { 0, r.range(0, 2), r.range(0, 767) });
		else if (u < 0.34) p.add("point", { 0, r.range(0, 1024), r.range(0, 1024), r.range(0, 1024), 0, 0, r.range(0, 9) });
		else if (u < 0.42) p.add("far", { 0, r.range(0, 1024), r.range(0, 1024), r.range(0, 1024), 0, 0, 0 });
		else if (u < 0.54) p.add("face", { 0, r.range(0, 1024), r.range(0, 1024), r.range(0, 1024), r.range(0, 5), r.range(0, 63), 0 });
		else if (u < 0.70) p.add("ball", { 0, r.range(0, 1024), r.range(0, 1024), r.range(0, 1024), r.chance(0.1) ? 0 : r.range(0, 511), r.range(0, 3), r.range(0, 5) });
		else if (u < 0.75) pln((int)r.range(0, 2));
		else if (u < 0.81) p.add("shift", { r.range(0, 2), any(), r.range(0, 5) });
		else if (u < 0.88) p.add("project", { r.range(0, 2), any(), any(), any(), r.range(0, 12), r.range(0, 4095) });
		else if (u < 0.93) p.add("meet", { 0, r.range(0, 2), r.range(0, 1) });
		else if (u < 0.97) p.add("save", { 0 });
		else p.add("crash", { 0, r.range(0, 3) });
	}
}
void exec_C26(const Plan& p)
{
	if (p.steps.empty() || p.steps[0].k != "type") return;
	if (p.steps[0].arg(0) & 1) (new World<double>)->run(p); else (new World<float>)->run(p);
}
