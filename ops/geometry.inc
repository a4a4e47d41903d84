OP(Pl_ctor, Pl z; z.set(a.dir(0), a.s(1)); o << z << Pl(a.dir(0), a.s(1)); z.set(a.v3(2), a.dir(3)); o << z; z.setFromPointAndTangents(a.v3(0), a.v3(1), a.v3(2)); o << z; z.set(a.v3(3), a.v3(4), a.v3(5)); o << z; z.set(a.pl(1), a.s(2)); o << z;)
OP(Pl_from, o << Pl::from(a.dir(0), a.s(1)) << Pl::from(a.v3(2), a.dir(3)) << Pl::fromPointAndTangents(a.v3(0), a.v3(1), a.v3(2)) << Pl::from(a.v3(3), a.v3(4), a.v3(5)) << Pl::from(a.pl(1), a.s(2));)
OP(Pl_cmp, o << (a.pl(0) == a.pl(1)) << (a.pl(0) != a.pl(1)) << (a.pl(0) == a.pl(0)); Pl z = a.pl(2); z.move(a.s(3)); o << z; z.flip(); o << z << a.pl(0).moved(a.s(1)) << a.pl(0).flipped();)
OP(Pl_contains, o << a.pl(0).contains(a.v3(1), a.pos(2)) << a.pl(0).distance(a.v3(1));)
OP(Pl_project, V3 p; o << a.pl(0).project(p, a.v3(1)) << p; bool r = a.pl(0).project(p, a.v3(1), a.dir(2)); o << r; if (r) o << p;)
OP(Pl_ray, V3 h; R t = 0; bool r = a.pl(0).hits(h, t, a.ry3(1)); o << r; if (r) o << h << t; r = a.pl(2).intersects(h, t, a.ry3(1)); o << r; if (r) o << h << t;)
OP(Pl_line, V3 h; R t = 0; bool r = a.pl(0).hits(h, t, a.l3(1)); o << r; if (r) o << h << t; r = a.pl(2).intersects(h, t, a.l3(1)); o << r; if (r) o << h << t; r = a.pl(0).hits(h, t, a.l3(1), a.pos(3)); o << r; if (r) o << h << t;)
OP(Pl_sphere, R t = 0; bool r = a.pl(0).hits(t, a.sp(1)); o << r; if (r) o << t; r = a.pl(0).intersects(t, a.sp(1)); o << r; if (r) o << t;)
OP(Pl_three, V3 h; bool r = Pl::intersectAtSinglePoint(h, a.pl(0), a.pl(1), a.pl(2)); o << r; if (r) o << h; const Pl& z = a.pl(3); o << z.data()[0] << z.data()[3] << z.template cast<float>() << z.template cast<double>();)
OP(Li2_all, L2 z = L2::from(a.v2(0), a.v2(1)); o << z << a.l2(2).length() << a.l2(2).lengthSqr() << a.l2(2).isNull() << a.l2(2).pointAt(a.s(3)) << (a.l2(2) == a.l2(3)) << (a.l2(2) != a.l2(3)) << z.template cast<float>() << z.template cast<double>();)
OP(Li2_dist, o << a.l2(0).distance(a.v2(1));)
OP(Ry2_all, R2 z = R2::from(a.v2(0), a.v2(1)); o << z << a.ry2(2).pointAt(a.s(3)) << (a.ry2(2) == a.ry2(3)) << (a.ry2(2) != a.ry2(3)) << z.template cast<float>() << z.template cast<double>();)
OP(Ry2_dist, o << a.ry2(0).distance(a.v2(1));)
OP(Li3_all, L3 z = L3::from(a.v3(0), a.v3(1)); o << z << a.l3(2).length() << a.l3(2).lengthSqr() << a.l3(2).isNull() << a.l3(2).pointAt(a.s(3)) << (a.l3(2) == a.l3(3)) << (a.l3(2) != a.l3(3)) << z.template cast<float>() << z.template cast<double>();)
OP(Li3_dist, o << a.l3(0).distance(a.v3(1));)
OP(Ry3_all, R3 z = R3::from(a.v3(0), a.v3(1)); o << z << a.ry3(2).pointAt(a.s(3)) << (a.ry3(2) == a.ry3(3)) << (a.ry3(2) != a.ry3(3)) << z.template cast<float>() << z.template cast<double>();)
OP(Ry3_dist, o << a.ry3(0).distance(a.v3(1));)
OP(Tr_all, Tri2<R> z = Tri2<R>::from(a.v2(0), a.v2(1), a.v2(2)); o << z << a.t2(3).contains(a.v2(0)) << z.contains(a.v2(4)) << (a.t2(3) == z) << (a.t2(3) != z) << z.template cast<float>() << z.template cast<double>();)
OP(Fr_set, Fr z; z.set(a.p.p3[a.idx(0)]); o << z; z.set(a.m34(1), a.p.p3[a.idx(2)]); o << z; z.set(a.m4(3), a.p.p3[a.idx(2)]); o << z; Fr y(a.p.p3[a.idx(4)]); o << y;)
OP(Fr_contains, o << a.fr(0).contains(a.v3(1)) << a.fr(0).contains(a.v4(1)) << a.fr(0).contains(a.sp(2)) << a.fr(0).intersects(a.sp(2));)
OP(Fr_cast, o << a.fr(0).template cast<float>() << a.fr(0).template cast<double>();)
