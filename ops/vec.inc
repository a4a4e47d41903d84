OP(V2_ctor, V2 z; z.set(a.s(0), a.s(1)); o << z << V2(a.s(0)) << V2(a.s(0), a.s(1)) << V2(a.v3(2), a.c3(3));)
OP(V2_fromAngle, o << V2::fromAngle(a.ang(0), a.pos(1)) << V2::fromAngle(a.ang(2)); V2 v; v.setAngle(a.ang(1), a.pos(0)); o << v;)
OP(V2_clerp, o << V2::fromClerp(a.v2(0), a.v2(1), a.u(2)); V2 v = a.v2(3); v.clerp(a.v2(0), v, a.u(2)); o << v;)
OP(V2_clerpMax, o << V2::fromClerpMaxAngle(a.v2(0), a.v2(1), a.pos(2)); V2 v = a.v2(3); v.clerpMaxAngle(v, a.v2(1), a.pos(2)); o << v;)
OP(V2_set, V2 v = a.v2(0); v.set(a.c2(1), a.s(2)); o << v; v.set(a.v2(3)); o << v;)
OP(V2_normalize, V2 v = a.v2(0); o << v.normalize(a.s(1)); o << v << a.v2(2).normalized() << a.v2(0).normalized(a.pos(1));)
OP(V2_rotate, V2 v = a.v2(0); v.rotate(a.ang(1)); o << v << a.v2(2).rotated(a.ang(3)); v.rotate90(); o << v; v.rotate180(); o << v; v.rotate270(); o << v; v.mirror(a.c2(2)); o << v;)
OP(V2_rot90, o << a.v2(0).rotated90() << a.v2(0).rotated180() << a.v2(0).rotated270() << a.v2(0).mirrored(a.c2(1));)
OP(V2_index, V2 v = a.v2(0); v[a.c2(1)] = a.s(2); o << v << a.v2(3)[a.c2(1)];)
OP(V2_assign, V2 v = a.v2(0); v += a.v2(1); o << v; v -= a.v2(2); o << v; v *= a.s(3); o << v; v /= a.pos(4); o << v; v *= a.m2(5); o << v;)
OP(V2_arith, o << a.v2(0) + a.v2(1) << -a.v2(0) << a.v2(0) - a.v2(1) << a.v2(0) * a.v2(1) << a.v2(0) % a.v2(1) << a.v2(0) * a.s(2) << a.v2(0) / a.pos(2);)
OP(V2_mulMat, o << a.v2(0) * a.m2(1);)
OP(V2_cmp, o << (a.v2(0) == a.v2(1)) << (a.v2(0) != a.v2(1)) << (a.v2(0) == a.v2(0)) << a.v2(2).isNull();)
OP(V2_len, o << a.v2(0).length() << a.v2(0).lengthSqr() << a.v2(1).angle() << a.v2(0).majorCoord() << a.v2(0).minorCoord();)
OP(V2_misc, o << a.v2(0).moved(a.c2(1), a.s(2)) << a.v2(0).copy() << V2::product(a.v2(0), a.v2(1)) << V2::min(a.v2(0), a.v2(1)) << V2::max(a.v2(0), a.v2(1)) << V2::crossProduct(a.v2(0), a.v2(1), a.v2(2)); const V2& v = a.v2(3); o << v.data()[0] << v.data()[1] << v.template cast<float>() << v.template cast<double>();)
OP(V2_intersection, R f = 0; R g = 0; int r = intersection(a.v2(0), a.v2(1), a.v2(2), a.v2(3), f, g); o << r; if (r) o << f << g;)
OP(V3_ctor, V3 z; z.set(a.s(0), a.s(1), a.s(2)); o << z << V3(a.s(0)) << V3(a.s(0), a.s(1), a.s(2)) << V3(a.v2(3), a.c3(4));)
OP(V3_slerp, o << V3::fromSlerp(a.v3(0), a.v3(1), a.u(2)); V3 v = a.v3(3); v.slerp(v, a.v3(1), a.u(2)); o << v;)
OP(V3_slerpDir, o << V3::fromSlerp(a.dir(0), a.dir(1), a.u(2)) << V3::fromSlerpMaxAngle(a.dir(0), a.dir(1), a.pos(2));)
OP(V3_slerpMax, o << V3::fromSlerpMaxAngle(a.v3(0), a.v3(1), a.pos(2)); V3 v = a.v3(3); v.slerpMaxAngle(a.v3(0), v, a.pos(2)); o << v;)
OP(V3_set, V3 v = a.v3(0); v.set(a.c3(1), a.s(2)); o << v; v.set(a.v3(3)); o << v;)
OP(V3_normalize, V3 v = a.v3(0); o << v.normalize(a.s(1)); o << v << a.v3(2).normalized() << a.v3(0).normalized(a.pos(1));)
OP(V3_rotate, V3 v = a.v3(0); v.rotate(a.c3(1), a.ang(2)); o << v << a.v3(3).rotated(a.c3(4), a.ang(2)); v.mirror(a.c3(3)); o << v << a.v3(0).mirrored(a.c3(1));)
OP(V3_index, V3 v = a.v3(0); v[a.c3(1)] = a.s(2); o << v << a.v3(3)[a.c3(1)];)
OP(V3_assign, V3 v = a.v3(0); v += a.v3(1); o << v; v -= a.v3(2); o << v; v *= a.s(3); o << v; v /= a.pos(4); o << v;)
OP(V3_assignX, V3 v = a.v3(0); v %= a.v3(1); o << v; v %= a.c3(2); o << v; v %= a.ax(3); o << v; v *= a.m3(4); o << v;)
OP(V3_arith, o << a.v3(0) + a.v3(1) << -a.v3(0) << a.v3(0) - a.v3(1) << a.v3(0) * a.v3(1) << a.v3(0) * a.s(2) << a.v3(0) / a.pos(2);)
OP(V3_cross, o << a.v3(0) % a.v3(1) << a.v3(0) % a.c3(1) << a.v3(0) % a.ax(1) << a.v3(0) * a.m3(2);)
OP(V3_cmp, o << (a.v3(0) == a.v3(1)) << (a.v3(0) != a.v3(1)) << (a.v3(0) == a.v3(0)) << a.v3(2).isNull();)
OP(V3_len, o << a.v3(0).length() << a.v3(0).lengthSqr() << a.v3(0).majorCoord() << a.v3(0).minorCoord() << a.v3(1).toVec2(a.c3(2));)
OP(V3_misc, o << a.v3(0).moved(a.c3(1), a.s(2)) << a.v3(0).copy() << V3::product(a.v3(0), a.v3(1)) << V3::min(a.v3(0), a.v3(1)) << V3::max(a.v3(0), a.v3(1)); const V3& v = a.v3(3); o << v.data()[0] << v.data()[1] << v.data()[2] << v.template cast<float>() << v.template cast<double>();)
OP(V4_ctor, V4 z; z.set(a.s(0), a.s(1), a.s(2), a.s(3)); o << z << V4(a.s(0)) << V4(a.s(0), a.s(1), a.s(2)) << V4(a.v3(3), a.s(4)) << V4(a.v3(3));)
OP(V4_set, V4 v = a.v4(0); v.set(a.c4(1), a.s(2)); o << v; v.set(a.v4(3)); o << v; v.set(a.v3(2), a.s(1)); o << v; v.set(a.v3(2)); o << v; v.set(a.s(0), a.s(1), a.s(2)); o << v;)
OP(V4_assign, V4 v = a.v4(0); v += a.v4(1); o << v; v -= a.v4(2); o << v; v += a.v3(1); o << v; v -= a.v3(2); o << v; v *= a.s(3); o << v; v /= a.pos(4); o << v;)
OP(V4_arith, o << a.v4(0) + a.v4(1) << -a.v4(0) << a.v4(0) - a.v4(1) << a.v4(0) * a.v4(1) << a.v4(0) * a.s(2) << a.v4(0) / a.pos(2);)
OP(V4_cmp, o << (a.v4(0) == a.v4(1)) << (a.v4(0) != a.v4(1)) << (a.v4(0) == a.v4(0)) << a.v4(2).isNull() << a.v4(0).length() << a.v4(0).lengthSqr();)
OP(V4_misc, o << a.v4(0).moved(a.c4(1), a.s(2)) << a.v4(0).copy() << a.v4(0).toVec3() << V4::product(a.v4(0), a.v4(1)) << V4::min(a.v4(0), a.v4(1)) << V4::max(a.v4(0), a.v4(1)); const V4& v = a.v4(3); o << v.data()[0] << v.data()[3] << v.template cast<float>() << v.template cast<double>();)
OP(Consts_vec, o << V2::Zero << V2::OneX << V2::OneY << V3::Zero << V3::OneX << V3::OneY << V3::OneZ << V4::Zero << V4::OneX << V4::OneY << V4::OneZ << V4::OneW << V4::OneXnw << V4::OneYnw << V4::OneZnw;)
