OP(M34_ctor, o << M34(a.s(0)) << M34(a.m3(1), a.v3(2)) << M34(a.m3(3)) << M34(a.v3(1), a.v3(2), a.v3(3), a.v3(4)); M34 m; m.setIdentity(); o << m; m.set(a.m34(0)); o << m; m.set(a.m3(1), a.v3(3)); o << m; m.set(a.v3(1), a.v3(2), a.v3(3), a.v3(4)); o << m;)
OP(M34_setRot, M34 m; m.set(a.dir(0), a.ang(1), a.v3(2)); o << m; m.set(a.c3(3), a.ang(4), a.v3(5)); o << m; m.set(a.q(6), a.v3(2)); o << m; Coord e = a.c3(0); Coord f = (Coord)(((int)e + 1 + (a.idx(1) & 1)) % 3); m.set(e, a.v3(2), f, a.v3(3)); o << m;)
OP(M34_from, o << M34::from(a.q(0), a.v3(1)) << M34::from(a.v3(1), a.v3(2), a.v3(3), a.v3(4)) << M34::from(a.dir(2), a.ang(3), a.v3(4)) << M34::from(a.c3(5), a.ang(6), a.v3(4)) << M34::from(a.q(2));)
OP(M34_slerp, o << M34::fromSlerp(a.r34(0), a.r34(1), a.u(2)) << M34::fromSlerpMaxAngle(a.r34(0), a.r34(1), a.pos(2)); M34 m = a.r34(3); m.slerp(m, a.r34(1), a.u(2)); o << m; m.slerpMaxAngle(m, a.r34(0), a.pos(2)); o << m;)
OP(M34_index, M34 m = a.m34(0); m[a.c4(1)] = a.v3(2); o << m.rs.x << m.rs.y << m.rs.z << m.t << a.m34(3)[a.c4(1)];)
OP(M34_mul, M34 m = a.m34(0); m *= a.m3(1); o << m; m *= a.m34(2); o << m << a.m34(0) * a.m3(1) << a.m34(0) * a.m34(2) << -a.m34(0) << a.m34(0) * a.v3(3);)
OP(M34_cmp, o << (a.m34(0) == a.m34(1)) << (a.m34(0) != a.m34(1)) << (a.m34(0) == a.m34(0));)
OP(M34_xf, M34 m = a.m34(0); m.rotate(a.q(1)); o << m; m.rotate(a.dir(2), a.ang(3)); o << m; m.rotate(a.c3(4), a.ang(5)); o << m; m.translate(a.v3(6)); o << m; m.scale(a.v3(7)); o << m; m.transform(a.m3(1)); o << m; m.transform(a.m34(2)); o << m;)
OP(M34_xfPre, M34 m = a.m34(0); m.rotatePre(a.q(1)); o << m; m.rotatePre(a.dir(2), a.ang(3)); o << m; m.rotatePre(a.c3(4), a.ang(5)); o << m; m.translatePre(a.v3(6)); o << m; m.scalePre(a.v3(7)); o << m; m.transformPre(a.m3(1)); o << m; m.transformPre(a.m34(2)); o << m;)
OP(M34_inv, M34 m = a.m34(0); m.invert(); o << m; M34 n = a.r34(1); n.invert(); o << n; m.transpose(); o << m.rs; m.optimize(); o << m; m.optimize(&a.tol(2)); o << m;)
OP(M34_local, o << a.m34(0).localAxis(a.c3(1)) << a.r34(0).localPlane(a.c3(1)) << a.r34(0).localPlane(a.ax(2));)
OP(M34_misc, const M34& m = a.m34(0); o << m.data()[0] << m.template cast<float>() << m.template cast<double>();)
OP(M34_transform, V3 v; a.m34(0).transform(v, a.v3(1)); o << v; M34 d; M34::multiply(d, a.m34(0), a.m34(2)); o << d;)
OP(M34_transformN, int n = a.n(1, 0, 9); size_t ss; size_t ds; const V3* s = a.bulk(a.p.p3[a.idx(2)], n, ss); V3* d = a.template dest<V3>(n, ds); if (!a.strided()) a.m34(0).transform(d, s, (size_t)n); else a.m34(0).transform(d, s, (size_t)n, ds, ss); a.dump(o, d, n, ds);)
