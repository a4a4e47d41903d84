OP(M2_ctor, o << M2(a.s(0)) << M2(a.v2(1), a.v2(2)) << M2::from(a.v2(1), a.v2(2)) << M2::from(a.ang(3)); M2 m; m.setIdentity(); o << m; m.set(a.ang(0)); o << m; m.set(a.v2(1), a.v2(2)); o << m; m.set(a.m2(4)); o << m;)
OP(M2_slerp, o << M2::fromSlerp(a.r2(0), a.r2(1), a.u(2)) << M2::fromSlerpMaxAngle(a.r2(0), a.r2(1), a.pos(2)); M2 m = a.r2(3); m.slerp(m, a.r2(1), a.u(2)); o << m; m.slerpMaxAngle(m, a.r2(0), a.pos(2)); o << m;)
OP(M2_assign, M2 m = a.m2(0); m *= a.s(1); o << m; m *= a.m2(2); o << m; m /= a.pos(3); o << m;)
OP(M2_mul, o << a.m2(0) * a.m2(1) << -a.m2(0) << a.m2(0) * a.s(2) << a.m2(0) * a.v2(3) << a.m2(0) / a.pos(2);)
OP(M2_cmp, o << (a.m2(0) == a.m2(1)) << (a.m2(0) != a.m2(1)) << (a.m2(0) == a.m2(0));)
OP(M2_xf, M2 m = a.m2(0); m.scale(a.v2(1)); o << m; m.transpose(); o << m; m.rotate(a.ang(2)); o << m; m.rotatePre(a.ang(3)); o << m; m.optimize(); o << m;)
OP(M2_orth, M2 m = a.r2(0); m.rotate(a.ang(1)); m.orthonormalise(); o << m; M2 n = a.m2(2); n.optimize(&a.tol(3)); o << n;)
OP(M2_fn, o << a.m2(0).rotated(a.ang(1)) << a.m2(0).scaled(a.v2(2)) << a.m2(0).transposed() << a.m2(0).cofactors() << a.m2(0).adjoint();)
OP(M2_inv, o << a.m2(0).inversed() << a.r2(1).inversed() << a.m2(0).determinant() << a.m2(0).trace() << a.r2(1).angle() << a.m2(0).normalError() << a.m2(0).orthogonalError() << a.m2(0).identityError();)
OP(M2_misc, const M2& m = a.m2(0); o << m.data()[0] << m.data()[3] << m.template cast<float>() << m.template cast<double>();)
OP(M2_transform, V2 v; a.m2(0).transform(v, a.v2(1)); o << v;)
OP(M2_transformN, int n = a.n(1, 0, 9); size_t ss; size_t ds; const V2* s = a.bulk(a.p.p2[a.idx(2)], n, ss); V2* d = a.template dest<V2>(n, ds); if (!a.strided()) a.m2(0).transform(d, s, (size_t)n); else a.m2(0).transform(d, s, (size_t)n, ds, ss); a.dump(o, d, n, ds);)
OP(M2_multiply, M2 d; M2::multiply(d, a.m2(0), a.m2(1)); o << d;)
OP(M3_ctor, o << M3(a.s(0)) << M3(a.v3(1), a.v3(2), a.v3(3)) << M3::from(a.v3(1), a.v3(2), a.v3(3)); M3 m; m.setIdentity(); o << m; m.set(a.v3(3), a.v3(1), a.v3(2)); o << m; m.set(a.m3(4)); o << m;)
OP(M3_fromQ, M3 m; m.set(a.q(0)); o << m << M3::from(a.q(1));)
OP(M3_exact, Coord e = a.c3(0); Coord f = (Coord)(((int)e + 1 + (a.idx(1) & 1)) % 3); M3 m; m.set(e, a.v3(2), f, a.v3(3)); o << m << M3::from(e, a.dir(2), f, a.dir(3));)
OP(M3_axis, M3 m; m.set(a.v3(0), a.ang(1)); o << m << M3::from(a.dir(0), a.ang(2)); m.set(a.c3(3), a.ang(1)); o << m << M3::from(a.c3(2), a.ang(3));)
OP(M3_slerp, o << M3::fromSlerp(a.r3(0), a.r3(1), a.u(2)) << M3::fromSlerpMaxAngle(a.r3(0), a.r3(1), a.pos(2)); M3 m = a.r3(3); m.slerp(m, a.r3(1), a.u(2)); o << m; m.slerpMaxAngle(a.r3(0), m, a.pos(2)); o << m;)
OP(M3_assign, M3 m = a.m3(0); m *= a.s(1); o << m; m *= a.m3(2); o << m; m /= a.pos(3); o << m;)
OP(M3_mul, o << a.m3(0) * a.m3(1) << -a.m3(0) << a.m3(0) * a.s(2) << a.m3(0) * a.v3(3) << a.m3(0) / a.pos(2);)
OP(M3_cmp, o << (a.m3(0) == a.m3(1)) << (a.m3(0) != a.m3(1)) << (a.m3(0) == a.m3(0));)
OP(M3_rotate, M3 m = a.m3(0); m.rotate(a.r3(1)); o << m; m.rotate(a.q(2)); o << m; m.rotate(a.dir(3), a.ang(4)); o << m; m.rotate(a.c3(5), a.ang(6)); o << m;)
OP(M3_rotatePre, M3 m = a.m3(0); m.rotatePre(a.r3(1)); o << m; m.rotatePre(a.q(2)); o << m; m.rotatePre(a.dir(3), a.ang(4)); o << m; m.rotatePre(a.c3(5), a.ang(6)); o << m;)
OP(M3_rotated, const M3& m = a.m3(0); o << m.rotated(a.r3(1)) << m.rotated(a.q(2)) << m.rotated(a.dir(3), a.ang(4)) << m.rotated(a.c3(5), a.ang(6));)
OP(M3_rotatedPre, const M3& m = a.m3(0); o << m.rotatedPre(a.r3(1)) << m.rotatedPre(a.q(2)) << m.rotatedPre(a.dir(3), a.ang(4)) << m.rotatedPre(a.c3(5), a.ang(6));)
OP(M3_xf, M3 m = a.m3(0); m.scale(a.v3(1)); o << m; m.transpose(); o << m; m.invert(); o << m; m.optimize(); o << m; M3 n = a.m3(2); n.optimize(&a.tol(3)); o << n;)
OP(M3_orth, M3 m = a.r3(0); m.orthonormalise(); o << m;)
OP(M3_fn, o << a.m3(0).scaled(a.v3(2)) << a.m3(0).transposed() << a.m3(0).cofactors() << a.m3(0).adjoint();)
OP(M3_inv, o << a.m3(0).inversed() << a.r3(1).inversed() << a.m3(0).determinant() << a.m3(0).trace() << a.m3(0).normalError() << a.m3(0).orthogonalError() << a.m3(0).identityError(); M3 m = a.m3(2); m.invert(); o << m; m = a.r3(3); m.invert(); o << m;)
OP(M3_misc, const M3& m = a.m3(0); o << m.data()[0] << m.data()[8] << m.template cast<float>() << m.template cast<double>() << M3::One << M3::Zero;)
OP(M3_transform, V3 v; a.m3(0).transform(v, a.v3(1)); o << v;)
OP(M3_transformN, int n = a.n(1, 0, 9); size_t ss; size_t ds; const V3* s = a.bulk(a.p.p3[a.idx(2)], n, ss); V3* d = a.template dest<V3>(n, ds); if (!a.strided()) a.m3(0).transform(d, s, (size_t)n); else a.m3(0).transform(d, s, (size_t)n, ds, ss); a.dump(o, d, n, ds);)
OP(M3_multiply, M3 d; M3::multiply(d, a.m3(0), a.m3(1)); o << d;)
OP(M3_chain, M3 d = a.r3(0) * a.r3(1) * a.m3(2); d *= a.r3(3); o << d << d.inversed() << d.transposed() * d;)
