// C15: replicas of one orientation, each in its own representation, fed from one log of rotations.
#include "h.h"
using namespace mathlib;
namespace {
enum { ROTS, APPLIED, BATCHED, BATCHES, CRASH, PERSIST, FLIP, NORM, UNDO, PRE, PINGPONG, CHECKS, AGREE, KIND0, NKIND = 5 };
enum { QUAT, M3, M34, M4, VECS };
const char* const KIND[] = { "quaternion", "3x3 matrix", "3x4 matrix", "4x4 matrix", "rotated vectors" };
const int NR = 7;

template <class R> struct Rot
{
	bool pre; int coord; Vec3<R> axis; R angle; LM ref;
	Quat<R> q() const { Quat<R> r; r.set(axis, angle); return r; }
	Quat<R> qi() const { Quat<R> r; r.set(axis, -angle); return r; }
	Mat3<R> m3(int how) const { Mat3<R> m; if (coord >= 0 && (how & 1)) m.set((Coord)coord, angle); else if (how & 2) m.set(q()); else if (how & 4) m = Mat3<R>::from(axis, angle); else m.set(axis, angle); return m; }
	Mat34<R> m34(int how) const { Mat34<R> m; if (coord >= 0 && (how & 1)) m.set((Coord)coord, angle); else if (how & 2) m.set(q()); else m.set(axis, angle); return m; }
	Mat4<R> m4(int how) const { Mat4<R> m; if (coord >= 0 && (how & 1)) m.set((Coord)coord, angle); else if (how & 2) m.set(q()); else m.set(axis, angle); return m; }
};
template <class R> struct Rep
{
	int kind; size_t pos = 0; L err = 1;
	Quat<R> q; Mat3<R> m3; Mat34<R> m34; Mat4<R> m4; Vec3<R> v[3];
	Rep(int k = 0) : kind(k) { q.setIdentity(); m3.setIdentity(); m34.setIdentity(); m4.setIdentity(); v[0] = Vec3<R>(1, 0, 0); v[1] = Vec3<R>(0, 1, 0); v[2] = Vec3<R>(0, 0, 1); }
};
template <class R> LM columns(const Rep<R>& r, int how)
{
	if (r.kind == QUAT)
	{
		if (how % 3 == 0) return LM(L3::of(r.q.rotated(Coord::X)), L3::of(r.q.rotated(Coord::Y)), L3::of(r.q.rotated(Coord::Z)));
		if (how % 3 == 1) { Mat3<R> m; m.set(r.q); return LM::of(m); }
		return LM(L3::of(r.q.rotated(Vec3<R>(1, 0, 0))), L3::of(r.q.rotated(Vec3<R>(0, 1, 0))), L3::of(r.q.rotated(Vec3<R>(0, 0, 1))));
	}
	if (r.kind == M3)
	{
		if (how % 2) return LM(L3::of(r.m3 * Vec3<R>(1, 0, 0)), L3::of(r.m3 * Vec3<R>(0, 1, 0)), L3::of(r.m3 * Vec3<R>(0, 0, 1)));
		return LM::of(r.m3);
	}
	if (r.kind == M34)
	{
		if (how % 2) return LM(L3::of(r.m34 * Vec3<R>(1, 0, 0)), L3::of(r.m34 * Vec3<R>(0, 1, 0)), L3::of(r.m34 * Vec3<R>(0, 0, 1)));
		return LM::of(r.m34.rs);
	}
	if (r.kind == M4)
	{
		Vec3<R> e[3] = { Vec3<R>(1, 0, 0), Vec3<R>(0, 1, 0), Vec3<R>(0, 0, 1) }, o[3];
		if (how % 3 == 0) return LM(L3::of(r.m4.x.toVec3()), L3::of(r.m4.y.toVec3()), L3::of(r.m4.z.toVec3()));
		if (how % 3 == 1) r.m4.transform(o, e, 3); else r.m4.transformVector(o, e, 3);
		return LM(L3::of(o[0]), L3::of(o[1]), L3::of(o[2]));
	}
	return LM(L3::of(r.v[0]), L3::of(r.v[1]), L3::of(r.v[2]));
}
// Maps the three vectors of a vector replica by one rotation.
template <class R> void turnVecs(Vec3<R>* v, const Rot<R>& o, int how)
{
	Vec3<R> d[3];
	switch (md(how, 7))
	{
	case 0: { Quat<R> q = o.q(); for (int i = 0; i < 3; i++) d[i] = q.rotated(v[i]); break; }
	case 1: { Mat3<R> m = o.m3(how >> 3); for (int i = 0; i < 3; i++) d[i] = m * v[i]; break; }
	case 2: { Mat3<R> m = o.m3(how >> 3); m.transform(d, v, 3); break; }
	case 3: { Mat34<R> m = o.m34(how >> 3); for (int i = 0; i < 3; i++) d[i] = m * v[i]; break; }
	case 4: { Mat34<R> m = o.m34(how >> 3); m.transform(d, v, 3, sizeof(Vec3<R>), sizeof(Vec3<R>)); break; }
	case 5: { Mat4<R> m = o.m4(how >> 3); m.transformVector(d, v, 3); break; }
	default: { Mat4<R> m = o.m4(how >> 3); for (int i = 0; i < 3; i++) d[i] = m * v[i]; break; }
	}
	for (int i = 0; i < 3; i++) v[i] = d[i];
}
template <class R> void post(Rep<R>& r, const Rot<R>& o, int how)
{
	int c = o.coord, h = how >> 4;
	switch (r.kind)
	{
	case QUAT:
		if (how & 1) PUT(r.q, o.q() * r.q); else PUT(r.q, (o.q() / r.q.inverse()));
		break;
	case M3:
		switch (md(how, 9))
		{
		case 0: r.m3.rotate(o.q()); break;
		case 1: r.m3.rotate(o.axis, o.angle); break;
		case 2: r.m3.rotate(o.m3(h)); break;
		case 3: if (c >= 0) r.m3.rotate((Coord)c, o.angle); else r.m3.rotate(o.axis, o.angle); break;
		case 4: if (c >= 0) PUT(r.m3, r.m3.rotated((Coord)c, o.angle)); else PUT(r.m3, r.m3.rotated(o.axis, o.angle)); break;
		case 5: PUT(r.m3, r.m3.rotated(o.q())); break;
		case 6: PUT(r.m3, r.m3.rotated(o.axis, o.angle)); break;
		case 7: PUT(r.m3, r.m3.rotated(o.m3(h))); break;
		default: PUT(r.m3, o.m3(h) * r.m3); break;
		}
		break;
	case M34:
		switch (md(how, 6))
		{
		case 0: r.m34.rotate(o.q()); break;
		case 1: r.m34.rotate(o.axis, o.angle); break;
		case 2: if (c >= 0) r.m34.rotate((Coord)c, o.angle); else r.m34.rotate(o.axis, o.angle); break;
		case 3: r.m34.transform(o.m3(h)); break;
		case 4: r.m34.transform(o.m34(h)); break;
		default: PUT(r.m34, o.m34(h) * r.m34); break;
		}
		break;
	case M4:
		switch (md(how, 9))
		{
		case 0: r.m4.rotate(o.q()); break;
		case 1: r.m4.rotate(o.axis, o.angle); break;
		case 2: if (c >= 0) r.m4.rotate((Coord)c, o.angle); else r.m4.rotate(o.axis, o.angle); break;
		case 3: r.m4.transform(o.m4(h)); break;
		case 4: PUT(r.m4, r.m4.rotated(o.q())); break;
		case 5: PUT(r.m4, r.m4.rotated(o.axis, o.angle)); break;
		case 6: if (c >= 0) PUT(r.m4, r.m4.rotated((Coord)c, o.angle)); else PUT(r.m4, r.m4.rotated(o.axis, o.angle)); break;
		case 7: PUT(r.m4, r.m4.transformed(o.m4(h))); break;
		default: PUT(r.m4, o.m4(h) * r.m4); break;
		}
		break;
	default: turnVecs(r.v, o, how);
	}
	r.err += 1;
}
template <class R> void pre(Rep<R>& r, const Rot<R>& o, int how)
{
	int c = o.coord, h = how >> 4;
	switch (r.kind)
	{
	case QUAT:
		if (how & 1) PUT(r.q, r.q * o.q()); else PUT(r.q, r.q / o.qi());
		break;
	case M3:
		switch (md(how, 10))
		{
		case 0: r.m3.rotatePre(o.q()); break;
		case 1: r.m3.rotatePre(o.axis, o.angle); break;
		case 2: r.m3.rotatePre(o.m3(h)); break;
		case 3: if (c >= 0) r.m3.rotatePre((Coord)c, o.angle); else r.m3.rotatePre(o.axis, o.angle); break;
		case 4: if (c >= 0) PUT(r.m3, r.m3.rotatedPre((Coord)c, o.angle)); else PUT(r.m3, r.m3.rotatedPre(o.axis, o.angle)); break;
		case 5: PUT(r.m3, r.m3.rotatedPre(o.q())); break;
		case 6: PUT(r.m3, r.m3.rotatedPre(o.axis, o.angle)); break;
		case 7: PUT(r.m3, r.m3.rotatedPre(o.m3(h))); break;
		case 8: r.m3 *= o.m3(h); break;
		default: PUT(r.m3, r.m3 * o.m3(h)); break;
		}
		break;
	case M34:
		switch (md(how, 9))
		{
		case 0: r.m34.rotatePre(o.q()); break;
		case 1: r.m34.rotatePre(o.axis, o.angle); break;
		case 2: if (c >= 0) r.m34.rotatePre((Coord)c, o.angle); else r.m34.rotatePre(o.axis, o.angle); break;
		case 3: r.m34.transformPre(o.m3(h)); break;
		case 4: r.m34.transformPre(o.m34(h)); break;
		case 5: r.m34 *= o.m3(h); break;
		case 6: r.m34 *= o.m34(h); break;
		case 7: PUT(r.m34, r.m34 * o.m3(h)); break;
		default: PUT(r.m34, r.m34 * o.m34(h)); break;
		}
		break;
	case M4:
		switch (md(how, 9))
		{
		case 0: r.m4.rotatePre(o.q()); break;
		case 1: r.m4.rotatePre(o.axis, o.angle); break;
		case 2: if (c >= 0) r.m4.rotatePre((Coord)c, o.angle); else r.m4.rotatePre(o.axis, o.angle); break;
		case 3: r.m4.transformPre(o.m4(h)); break;
		case 4: PUT(r.m4, r.m4.rotatedPre(o.q())); break;
		case 5: PUT(r.m4, r.m4.rotatedPre(o.axis, o.angle)); break;
		case 6: if (c >= 0) PUT(r.m4, r.m4.rotatedPre((Coord)c, o.angle)); else PUT(r.m4, r.m4.rotatedPre(o.axis, o.angle)); break;
		case 7: PUT(r.m4, r.m4.transformedPre(o.m4(h))); break;
		default: PUT(r.m4, r.m4 * o.m4(h)); break;
		}
		break;
	default: break;
	}
	r.err += 1;
}
// Applies an already combined rotation (a quaternion or a matrix).
template <class R> void applyCombined(Rep<R>& r, const Quat<R>& q, bool isPre, int how)
{
	Mat3<R> m; m.set(q);
	Mat4<R> m4; m4.set(q);
	switch (r.kind)
	{
	case QUAT: PUT(r.q, isPre ? r.q * q : q * r.q); break;
	case M3: if (how & 1) isPre ? r.m3.rotatePre(q) : r.m3.rotate(q); else PUT(r.m3, isPre ? r.m3 * m : m * r.m3); break;
	case M34: if (how & 1) isPre ? r.m34.rotatePre(q) : r.m34.rotate(q); else isPre ? r.m34.transformPre(m) : r.m34.transform(m); break;
	case M4: if (how & 1) isPre ? r.m4.rotatePre(q) : r.m4.rotate(q); else PUT(r.m4, isPre ? r.m4.transformedPre(m4) : r.m4.transformed(m4)); break;
	default: for (int i = 0; i < 3; i++) PUT(r.v[i], (how & 1) ? q.rotated(r.v[i]) : m * r.v[i]); break;
	}
	r.err += 2;
}
// Rebuilds r from the present state of a peer, by one of the conversions between the representations.
template <class R> void rebuild(Rep<R>& r, const Rep<R>& p, int how)
{
	Rep<R> n(r.kind);
	n.pos = p.pos; n.err = p.err + 2;
	Vec3<R> c[3];
	Mat3<R> m;
	switch (p.kind)
	{
	case QUAT: if (how & 1) m.set(p.q); else m.set(p.q.rotated(Coord::X), p.q.rotated(Coord::Y), p.q.rotated(Coord::Z)); break;
	case M3: if (how & 1) m = p.m3; else m.set(p.m3); break;
	case M34: m = p.m34.rs; break;
	case M4: m.set(p.m4.x.toVec3(), p.m4.y.toVec3(), p.m4.z.toVec3()); break;
	default:
		switch (md(how, 5))
		{
		case 0: m.set(Coord::X, p.v[0], Coord::Y, p.v[1]); break;
		case 1: m.set(Coord::Y, p.v[1], Coord::Z, p.v[2]); break;
		case 2: m.set(Coord::Z, p.v[2], Coord::X, p.v[0]); break;
		case 3: m.set(Coord::Y, p.v[1], Coord::X, p.v[0]); break;
		default: m.set(p.v[0], p.v[1], p.v[2]); break;
		}
	}
	how >>= 3;
	switch (r.kind)
	{
	case QUAT:
		if (p.kind == QUAT) { if (how & 1) n.q = p.q; else n.q = Quat<R>(p.q.x, p.q.y, p.q.z, p.q.w, (how & 2) != 0); }
		else if (p.kind == M4 && (how & 1)) { if (how & 2) n.q.set(p.m4); else n.q = Quat<R>::from(p.m4); }
		else if (how & 2) n.q.set(m); else n.q = Quat<R>::from(m);
		break;
	case M3:
		if (p.kind == QUAT && (how & 1)) n.m3 = Mat3<R>::from(p.q); else if (how & 2) n.m3 = Mat3<R>::from(m.x, m.y, m.z); else n.m3.set(m);
		break;
	case M34:
		if (p.kind == QUAT) { if (how & 1) n.m34.set(p.q); else n.m34 = Mat34<R>::from(p.q); }
		else if (how & 1) n.m34.set(m); else if (how & 2) n.m34.set(m.x, m.y, m.z); else n.m34 = Mat34<R>(m);
		break;
	case M4:
		if (p.kind == QUAT) { if (how & 1) n.m4.set(p.q); else n.m4 = Mat4<R>::from(p.q); }
		else if (p.kind == M4) n.m4 = p.m4;
		else if (how & 1) n.m4.set(m.x, m.y, m.z); else n.m4 = Mat4<R>(m.x, m.y, m.z);
		break;
	default: n.v[0] = m.x; n.v[1] = m.y; n.v[2] = m.z; break;
	}
	r = n;
}
template <class R> struct World
{
	std::vector<Rot<R>> log;
	std::vector<LM> ref;      // ref[n]: orientation after the first n entries
	std::vector<Rep<R>> reps;
	L worst = 0;

	void push(const Rot<R>& o)
	{
		log.push_back(o);
		const LM& l = ref.back();
		ref.push_back(o.pre ? l * o.ref : o.ref * l);
		ctr(ROTS); if (o.pre) ctr(PRE);
	}
	void check(int i, int how)
	{
		Rep<R>& r = reps[i];
		LM m = columns(r, how);
		ev3(m.x); ev3(m.y); ev3(m.z);
		ctr(CHECKS); ctr(KIND0 + r.kind);
		L tol = 16 * epsOf<R>() * (r.err + 2), d = m.dist(ref[r.pos]);
		worst = fmaxl(worst, d / tol);
		if (!m.finite() || !(d <= tol))
			rep_violation("orientation", "replica %d (%s of %s) after %zu rotations is off by %.3Lg (allowed %.3Lg): x axis (%.9Lg %.9Lg %.9Lg), reference (%.9Lg %.9Lg %.9Lg)", i, KIND[r.kind], sizeof(R) == 4 ? "float" : "double", r.pos, d, tol,
				m.x.x, m.x.y, m.x.z, ref[r.pos].x.x, ref[r.pos].x.y, ref[r.pos].x.z);
	}
	void rebuildVecs(Rep<R>& r, size_t upto, int how)
	{
		// a pre-multiplied rotation acts before everything else: apply the whole log again, in mathematical order
		Rep<R> n(VECS);
		for (size_t i = upto; i-- > 0;) if (log[i].pre) { turnVecs(n.v, log[i], how + (int)i); n.err += 1; }
		for (size_t i = 0; i < upto; i++) if (!log[i].pre) { turnVecs(n.v, log[i], how + (int)i); n.err += 1; }
		n.pos = upto;
		r = n;
	}
	void apply(int i, int n, int how)
	{
		Rep<R>& r = reps[i];
		for (; n > 0 && r.pos < log.size() && !rep_violated(); n--)
		{
			const Rot<R>& o = log[r.pos];
			int h = (int)(mix64(how, r.pos) & 0xffff);
			if (r.kind == VECS && o.pre) rebuildVecs(r, r.pos + 1, h);
			else { if (o.pre) pre(r, o, h); else post(r, o, h); r.pos++; }
			ctr(APPLIED);
			check(i, h >> 3);
		}
	}
	void batch(int i, int n, int how)
	{
		Rep<R>& r = reps[i];
		size_t end = r.pos + n < log.size() ? r.pos + n : log.size();
		if (r.kind == VECS) for (size_t k = r.pos; k < end; k++) if (log[k].pre) { end = k; break; }
		if (end == r.pos) return;
		// combine the rotations of each side, either as quaternions or as matrices
		Quat<R> qa, qb; qa.setIdentity(); qb.setIdentity();
		Mat3<R> ma, mb; ma.setIdentity(); mb.setIdentity();
		int na = 0, nb = 0;
		for (size_t k = r.pos; k < end; k++)
		{
			const Rot<R>& o = log[k];
			int h = (int)(mix64(how, k) & 0xffff);
			if (o.pre) { PUT(qb, qb * o.q()); if (h & 1) mb.rotatePre(o.m3(h >> 2)); else mb *= o.m3(h >> 2); nb++; }
			else { PUT(qa, o.q() * qa); if (h & 1) ma.rotate(o.m3(h >> 2)); else PUT(ma, o.m3(h >> 2) * ma); na++; }
		}
		ctr(BATCHES); ctr(BATCHED, end - r.pos);
		if (how & 1) { qa.set(ma); qb.set(mb); r.err += 4; }
		if (how & 2) { PUT(qa, -qa); }
		if (how & 4) { qb.normalize(); }
		bool preFirst = how & 8;
		if (nb && preFirst) applyCombined(r, qb, true, how >> 4);
		if (na) applyCombined(r, qa, false, how >> 5);
		if (nb && !preFirst) applyCombined(r, qb, true, how >> 4);
		r.err += na + nb;
		r.pos = end;
		check(i, how >> 6);
	}
};
template <class R> void run(const Plan& p)
{
	World<R>& w = *new World<R>;
	w.ref.push_back(LM());
	for (int i = 0; i < NR; i++) w.reps.push_back(Rep<R>(i % 5));
	const L PI = 3.141592653589793238462643383279L;
	for (auto& s : p.steps)
	{
		if (rep_violated()) return;
		for (char ch : s.k) shape((unsigned char)ch);
		if (s.k == "rep") { w.reps[md(s.arg(0), NR)] = Rep<R>((int)md(s.arg(1), 5)); shape(md(s.arg(1), 5)); }
		else if (s.k == "rot")
		{
			Rot<R> o;
			o.pre = s.arg(0) & 1;
			o.coord = (int)md(s.arg(1), 4) - 1;
			L3 d = o.coord < 0 ? dirOf(s.arg(2), s.arg(3), s.arg(4)) * ldexpl(1, (int)md(s.arg(5), 17) - 8) : L3(o.coord == 0, o.coord == 1, o.coord == 2);
			o.axis = V3<R>(d);
			static const L special[] = { 0, PI / 2, PI, 2 * PI, -PI / 2, -PI, PI / 4, PI / 3 };
			int k = (int)md(s.arg(6), 4);
			shape(o.pre + 2 * (o.coord + 1) + 8 * k);
			if (k == 0) o.angle = (R)special[md(s.arg(7), 8)];
			else if (k == 1) o.angle = (R)ldexpl(s.arg(7) & 1 ? -1 : 1, -(int)md(s.arg(7) >> 1, sizeof(R) == 4 ? 26 : 55));
			else if (k == 2) o.angle = (R)(special[md(s.arg(7), 8)] + ldexpl(1, -(int)md(s.arg(7) >> 3, sizeof(R) == 4 ? 24 : 50)));
			else o.angle = (R)(fx(s.arg(7) % 8192));
			o.ref = LM::rot(L3::of(o.axis), o.angle);
			w.push(o);
		}
		else if (s.k == "undo")
		{
			ctr(UNDO);
			size_t n = w.log.size(), k = (size_t)md(s.arg(0), 8);
			if (k > n) k = n;
			for (size_t i = 0; i < k; i++)
			{
				Rot<R> o = w.log[n - 1 - i];
				o.angle = -o.angle; o.ref = o.ref.transposed();
				w.push(o);
			}
		}
		else if (s.k == "apply") { shape(md(s.arg(0), NR)); w.apply((int)md(s.arg(0), NR), (int)md(s.arg(1), 64), (int)md(s.arg(2), 1 << 20)); }
		else if (s.k == "batch") { shape(md(s.arg(0), NR)); w.batch((int)md(s.arg(0), NR), (int)md(s.arg(1), 64), (int)md(s.arg(2), 1 << 20)); }
		else if (s.k == "crash")
		{
			int a = (int)md(s.arg(0), NR), b = (int)md(s.arg(1), NR);
			if (a == b) continue;
			shape(w.reps[a].kind * 8 + w.reps[b].kind);
			ctr(CRASH);
			rebuild(w.reps[a], w.reps[b], (int)md(s.arg(2), 1 << 12));
			w.check(a, (int)md(s.arg(2), 7));
		}
		else if (s.k == "pingpong")
		{
			// handed to a peer of another representation and back, again and again
			Rep<R>& r = w.reps[md(s.arg(0), NR)];
			int n = 1 + (int)md(s.arg(2), 200);
			shape(md(s.arg(1), 5));
			ctr(PINGPONG, n);
			for (int i = 0; i < n; i++)
			{
				Rep<R> t((int)md(s.arg(1), 5));
				int h = (int)(mix64(s.arg(3), s.arg(3) & 1 ? i : 0) & 0xfff);
				rebuild(t, r, h);
				rebuild(r, t, h >> 2);
			}
			w.check((int)md(s.arg(0), NR), (int)md(s.arg(3), 7));
		}
		else if (s.k == "persist")
		{
			// through storage in the other precision (double) or as bare elements
			Rep<R>& r = w.reps[md(s.arg(0), NR)];
			ctr(PERSIST);
			if (s.arg(1) & 1)
			{
				PUT(r.q, r.q.template cast<double>().template cast<R>()); r.m3 = r.m3.template cast<double>().template cast<R>();
				PUT(r.m34, r.m34.template cast<double>().template cast<R>()); r.m4 = r.m4.template cast<double>().template cast<R>();
			}
			else
			{
				Mat3<R> m; for (int i = 0; i < 9; i++) m.data()[i] = r.m3.data()[i]; m.optimize(); r.m3 = m;
				Mat4<R> n; for (int i = 0; i < 16; i++) n.data()[i] = r.m4.data()[i]; n.optimize(); r.m4 = n;
				Quat<R> q; for (int i = 0; i < 4; i++) q.data()[i] = r.q.data()[i]; r.q = q;
			}
			w.check((int)md(s.arg(0), NR), (int)md(s.arg(1), 7));
		}
		else if (s.k == "norm")
		{
			Rep<R>& r = w.reps[md(s.arg(0), NR)];
			ctr(NORM);
			if (r.kind == QUAT) { if (s.arg(1) & 1) r.q.normalize(); else { ctr(FLIP); PUT(r.q, -r.q); } }
			else if (r.kind == M3) { r.m3.orthonormalise(); r.err += 2; }
			else if (r.kind == M4) { r.m4.orthonormalise(); r.err += 2; }
			w.check((int)md(s.arg(0), NR), (int)md(s.arg(1), 7));
		}
	}
	// faults stop: every replica catches up, and all agree
	for (int i = 0; i < NR && !rep_violated(); i++) w.apply(i, 1 << 20, 7 * i + (int)p.steps.size());
	for (int i = 0; i < NR && !rep_violated(); i++)
		for (int j = 0; j < i && !rep_violated(); j++)
		{
			ctr(AGREE);
			L tol = 32 * epsOf<R>() * (w.reps[i].err + w.reps[j].err + 2), d = columns(w.reps[i], 0).dist(columns(w.reps[j], 1));
			if (!(d <= tol)) rep_violation("agree", "replicas %d (%s) and %d (%s) that applied the same %zu rotations differ by %.3Lg (allowed %.3Lg)", i, KIND[w.reps[i].kind], j, KIND[w.reps[j].kind], w.log.size(), d, tol);
		}
	if (getenv("SIM_WORST")) fprintf(stderr, "worst %.4Lf\n", w.worst);
}
}
const char* const names_C15[] = { "rotations logged", "rotations applied one by one", "rotations applied in batches", "batches", "crashes with rebuild by conversion", "replicas passed through storage", "quaternion sign flips", "renormalisations", "undone tails of the log", "pre-multiplied rotations", "repeated conversions there and back", "orientations compared with the reference", "replica pairs compared",
	"checks of a quaternion", "checks of a 3x3 matrix", "checks of a 3x4 matrix", "checks of a 4x4 matrix", "checks of rotated vectors", nullptr };
void gen_C15(Plan& p, Rng& r, int tier)
{
	p.add("type", { r.range(0, 1) });
	for (int i = 0; i < NR; i++) p.add("rep", { i, r.chance(0.5) ? i % 5 : r.range(0, 4) });
	int n = (int)r.range(8, tier ? 160 : 70);
	double pPre = r.unit() * 0.6, pCoord = r.unit(), pTiny = r.chance(0.25) ? 0.8 : 0.1;
	for (int i = 0; i < n; i++)
	{
		double u = r.unit();
		if (u < 0.40)
		{
			i64 kind = r.chance(pTiny) ? 1 : r.chance(0.2) ? 0 : r.chance(0.15) ? 2 : 3;
			p.add("rot", { r.chance(pPre), r.chance(pCoord) ? r.range(1, 3) : 0, r.range(-2000, 2000), r.chance(0.2) ? 0 : r.range(-2000, 2000), r.chance(0.2) ? 0 : r.range(-2000, 2000), r.chance(0.6) ? 8 : r.range(0, 16), kind, kind == 3 ? r.range(-8000, 8000) : r.range(0, 400) });
		}
		else if (u < 0.58) p.add("apply", { r.range(0, NR - 1), r.range(1, 8), r.range(0, 1 << 20) });
		else if (u < 0.72) p.add("batch", { r.range(0, NR - 1), r.range(1, 12), r.range(0, 1 << 20) });
		else if (u < 0.84) p.add("crash", { r.range(0, NR - 1), r.range(0, NR - 1), r.range(0, 4095) });
		else if (u < 0.90) p.add("persist", { r.range(0, NR - 1), r.range(0, 7) });
		else if (u < 0.92) p.add("pingpong", { r.range(0, NR - 1), r.range(0, 4), r.chance(0.5) ? r.range(0, 20) : r.range(0, 199), r.range(0, 1 << 20) });
		else if (u < 0.97) p.add("norm", { r.range(0, NR - 1), r.range(0, 7) });
		else p.add("undo", { r.range(1, 7) });
	}
}
void exec_C15(const Plan& p)
{
	bool dbl = !p.steps.empty() && p.steps[0].k == "type" && (p.steps[0].arg(0) & 1);
	if (dbl) run<double>(p); else run<float>(p);
}
