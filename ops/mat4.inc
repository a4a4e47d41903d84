OP(M4_ctor, o << M4(a.s(0)) << M4(a.v3(1), a.v3(2), a.v3(3), a.v3(4)) << M4(a.v4(1), a.v4(2), a.v4(3), a.v4(4)); M4 m; m.setIdentity(); o << m; m.set(a.m4(0)); o << m;)
OP(M4_set, M4 m; m.set(a.q(0), a.v3(1)); o << m; m.set(a.v3(1), a.v3(2), a.v3(3), a.v3(4)); o << m; m.set(a.v4(1), a.v4(2), a.v4(3), a.v4(4)); o << m;)
OP(M4_setRot, M4 m; m.set(a.dir(0), a.ang(1)); o << m; m.set(a.c3(3), a.ang(4)); o << m; Coord e = a.c3(0); Coord f = (Coord)(((int)e + 1 + (a.idx(1) & 1)) % 3); m.set(e, a.v3(2), f, a.v3(3)); o << m;)
OP(M4_from, o << M4::from(a.q(0), a.v3(1)) << M4::from(a.v3(1), a.v3(2), a.v3(3), a.v3(4)) << M4::from(a.v4(1), a.v4(2), a.v4(3), a.v4(4)) << M4::from(a.dir(2), a.ang(3)) << M4::from(a.c3(5), a.ang(6));)
OP(M4_index, M4 m = a.m4(0); m[a.c4(1)] = a.v4(2); o << m.x << m.y << m.z << m.t << a.m4(3)[a.c4(1)];)
OP(M4_assign, M4 m = a.m4(0); m *= a.s(1); o << m; m /= a.pos(2); o << m << -m << a.m4(0) * a.s(1) << a.m4(0) / a.pos(2);)
OP(M4_mul, o << a.m4(0) * a.m4(1) << a.m4(0) * a.v3(2) << a.m4(0) * a.v4(2); M4 d; M4::multiply(d, a.m4(0), a.m4(1)); o << d;)
OP(M4_cmp, o << (a.m4(0) == a.m4(1)) << (a.m4(0) != a.m4(1)) << (a.m4(0) == a.m4(0));)
OP(M4_xf, M4 m = a.m4(0); m.rotate(a.q(1)); o << m; m.rotate(a.dir(2), a.ang(3)); o << m; m.rotate(a.c3(4), a.ang(5)); o << m; m.translate(a.v3(6)); o << m; m.scale(a.v3(7)); o << m; m.transform(a.m4(2)); o << m;)
OP(M4_xfPre, M4 m = a.m4(0); m.rotatePre(a.q(1)); o << m; m.rotatePre(a.dir(2), a.ang(3)); o << m; m.rotatePre(a.c3(4), a.ang(5)); o << m; m.translatePre(a.v3(6)); o << m; m.scalePre(a.v3(7)); o << m; m.transformPre(a.m4(2)); o << m;)
OP(M4_xfd, const M4& m = a.m4(0); o << m.rotated(a.q(1)) << m.rotated(a.dir(2), a.ang(3)) << m.rotated(a.c3(4), a.ang(5)) << m.translated(a.v3(6)) << m.scaled(a.v3(7)) << m.transformed(a.m4(2));)
OP(M4_xfdPre, const M4& m = a.m4(0); o << m.rotatedPre(a.q(1)) << m.rotatedPre(a.dir(2), a.ang(3)) << m.rotatedPre(a.c3(4), a.ang(5)) << m.translatedPre(a.v3(6)) << m.scaledPre(a.v3(7)) << m.transformedPre(a.m4(2));)
OP(M4_inv, M4 m = a.m4(0); m.invert(); o << m << a.m4(0).inversed() << a.m4(1).transposed() << a.m4(2).determinant() << a.m4(2).trace(); m.transpose(); o << m; m.optimize(); o << m; m.optimize(&a.tol(2)); o << m;)
OP(M4_errs, o << a.m4(0).normalError() << a.m4(0).orthogonalError() << a.m4(0).identityError(); M4 m = a.m4(1); m.orthonormalise(); o << m;)
OP(M4_local, o << a.m4(0).localAxis(a.c3(1)) << a.m4(0).localPlane(a.c3(1)) << a.m4(0).localPlane(a.ax(2));)
OP(M4_misc, const M4& m = a.m4(0); o << m.data()[0] << m.data()[15] << m.template cast<float>() << m.template cast<double>();)
OP(M4_transform, V3 v; a.m4(0).transform(v, a.v3(1)); o << v; V4 w; a.m4(0).transform(w, a.v4(1)); o << w; a.m4(0).transformVector(v, a.v3(2)); o << v; a.m4(0).transformVector(w, a.v4(2)); o << w;)
OP(M4_transformN3, int n = a.n(1, 0, 9); size_t ss; size_t ds; const V3* s = a.bulk(a.p.p3[a.idx(2)], n, ss); V3* d = a.template dest<V3>(n, ds); if (!a.strided()) a.m4(0).transform(d, s, (size_t)n); else a.m4(0).transform(d, s, (size_t)n, ds, ss); a.dump(o, d, n, ds);)
OP(M4_transformN4, int n = a.n(1, 0, 9); size_t ss; size_t ds; const V4* s = a.bulk(a.p.p4[a.idx(2)], n, ss); V4* d = a.template dest<V4>(n, ds); if (!a.strided()) a.m4(0).transform(d, s, (size_t)n); else a.m4(0).transform(d, s, (size_t)n, ds, ss); a.dump(o, d, n, ds);)
OP(M4_transformVN3, int n = a.n(1, 0, 9); size_t ss; size_t ds; const V3* s = a.bulk(a.p.p3[a.idx(2)], n, ss); V3* d = a.template dest<V3>(n, ds); if (!a.strided()) a.m4(0).transformVector(d, s, (size_t)n); else a.m4(0).transformVector(d, s, (size_t)n, ds, ss); a.dump(o, d, n, ds);)
OP(M4_transformVN4, int n = a.n(1, 0, 9); size_t ss; size_t ds; const V4* s = a.bulk(a.p.p4[a.idx(2)], n, ss); V4* d = a.template dest<V4>(n, ds); if (!a.strided()) a.m4(0).transformVector(d, s, (size_t)n); else a.m4(0).transformVector(d, s, (size_t)n, ds, ss); a.dump(o, d, n, ds);)
