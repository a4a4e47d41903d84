OP(AB2_ctor, B2 z; z.set(a.v2(0)); o << z << B2(a.v2(0), a.v2(1)); z.set(a.v2(2), a.v2(3)); o << z << B2::from(a.v2(4)) << B2::from(a.v2(1), a.v2(3));)
OP(AB2_fromC, B2 z; z.set(a.cb2(0)); o << z << B2::from(a.cb2(1));)
OP(AB2_bulk, int n = a.n(1, 1, 9); size_t ss; const V2* s = a.bulk(a.p.p2[a.idx(2)], n, ss); B2 b; if (!a.strided()) b.set(n, s); else b.set(n, s, (int)ss); o << b; B2 c = (!a.strided()) ? B2::from(n, s) : B2::from(n, s, (int)ss); o << c;)
OP(AB2_add, B2 z = a.b2(0); for (int i = 1; i < 5; i++) z.add(a.v2(i)); o << z;)
OP(AB2_setops, o << B2::fromIntersection(a.b2(0), a.b2(1)) << B2::fromUnion(a.b2(0), a.b2(1));)
OP(AB2_assign, B2 z = a.b2(0); z += a.v2(1); o << z; z -= a.v2(2); o << z; z *= a.s(3); o << z; z /= a.pos(4); o << z; z.scaleCentered(a.pos(2)); o << z;)
OP(AB2_arith, o << a.b2(0) + a.v2(1) << a.b2(0) - a.v2(1) << a.b2(0) * a.s(2) << a.b2(0) / a.pos(2);)
OP(AB2_cmp, o << (a.b2(0) == a.b2(1)) << (a.b2(0) != a.b2(1)) << (a.b2(0) == a.b2(0)) << a.b2(2).isNull();)
OP(AB2_props, o << a.b2(0).center() << a.b2(0).extents() << a.b2(0).size() << a.b2(0).innerCircle() << a.b2(0).outerCircle() << a.b2(0).area() << a.b2(1).pointAt(a.v2(2)) << a.b2(0).template cast<float>() << a.b2(0).template cast<double>();)
OP(AB2_contains, o << a.b2(0).contains(a.v2(1)) << a.b2(0).contains(a.b2(1)) << a.b2(0).intersects(a.b2(1));)
OP(AB2_hitsRay, R t = 0; bool h = a.b2(0).hits(t, a.ry2(1)); o << h; if (h) o << t; R t1 = 0; R t2 = 0; h = a.b2(2).intersects(t1, t2, a.ry2(1)); o << h; if (h) o << t1 << t2;)
OP(AB2_hitsLine, R t = 0; bool h = a.b2(0).hits(t, a.l2(1)); o << h; if (h) o << t; R t1 = 0; R t2 = 0; h = a.b2(2).intersects(t1, t2, a.l2(1)); o << h; if (h) o << t1 << t2;)
OP(CB2_ctor, CB2 z; z.set(a.v2(0)); o << z << CB2(a.v2(0), a.v2(1)); z.set(a.v2(2), a.v2(3)); o << z << CB2::from(a.v2(4)) << CB2::from(a.v2(1), a.v2(3)) << CB2::fromInfSup(a.v2(1), a.v2(2));)
OP(CB2_fromA, CB2 z; z.set(a.b2(0)); o << z;)
OP(CB2_bulk, int n = a.n(1, 1, 9); size_t ss; const V2* s = a.bulk(a.p.p2[a.idx(2)], n, ss); CB2 b; if (!a.strided()) b.set(n, s); else b.set(n, s, (int)ss); o << b; CB2 c = (!a.strided()) ? CB2::from(n, s) : CB2::from(n, s, (int)ss); o << c;)
OP(CB2_add, CB2 z = a.cb2(0); for (int i = 1; i < 5; i++) z.add(a.v2(i)); o << z;)
OP(CB2_assign, CB2 z = a.cb2(0); z += a.v2(1); o << z; z -= a.v2(2); o << z; z *= a.s(3); o << z; z /= a.pos(4); o << z;)
OP(CB2_arith, o << a.cb2(0) + a.v2(1) << a.cb2(0) - a.v2(1) << a.cb2(0) * a.s(2) << a.cb2(0) / a.pos(2);)
OP(CB2_cmp, o << (a.cb2(0) == a.cb2(1)) << (a.cb2(0) != a.cb2(1)) << (a.cb2(0) == a.cb2(0)) << a.cb2(2).isNull();)
OP(CB2_props, o << a.cb2(0).inf() << a.cb2(0).sup() << a.cb2(0).size() << a.cb2(0).innerCircle() << a.cb2(0).outerCircle() << a.cb2(0).area() << a.cb2(1).pointAt(a.v2(2)) << a.cb2(0).template cast<float>() << a.cb2(0).template cast<double>();)
OP(CB2_contains, o << a.cb2(0).contains(a.v2(1)) << a.cb2(0).contains(a.cb2(1)) << a.cb2(0).intersects(a.cb2(1));)
OP(Ci_ctor, Ci z; z.set(a.v2(0), a.pos(1)); o << z << Ci(a.v2(0), a.pos(1)) << Ci::from(a.v2(2), a.pos(3));)
OP(Ci_bulk, int n = a.n(1, 1, 9); size_t ss; const V2* s = a.bulk(a.p.p2[a.idx(2)], n, ss); Ci b; if (!a.strided()) b.set(n, s); else b.set(n, s, (int)ss); o << b; Ci c = (!a.strided()) ? Ci::from(n, s) : Ci::from(n, s, (int)ss); o << c;)
OP(Ci_assign, Ci z = a.ci(0); z += a.v2(1); o << z; z -= a.v2(2); o << z; z *= a.s(3); o << z; z /= a.pos(4); o << z;)
OP(Ci_arith, o << a.ci(0) + a.v2(1) << a.ci(0) - a.v2(1) << a.ci(0) * a.s(2) << a.ci(0) / a.pos(2);)
OP(Ci_cmp, o << (a.ci(0) == a.ci(1)) << (a.ci(0) != a.ci(1)) << (a.ci(0) == a.ci(0));)
OP(Ci_contains, o << a.ci(0).contains(a.v2(1)) << a.ci(0).contains(a.ci(1)) << a.ci(0).intersects(a.ci(1)); V2 h; R t = 0; bool r = a.ci(2).intersects(h, t, a.ci(3)); o << r; if (r) o << h << t;)
OP(Ci_misc, const Ci& z = a.ci(0); o << z.data()[0] << z.data()[2] << z.template cast<float>() << z.template cast<double>();)
OP(AB3_ctor, B3 z; z.set(a.v3(0)); o << z << B3(a.v3(0), a.v3(1)); z.set(a.v3(2), a.v3(3)); o << z << B3::from(a.v3(4)) << B3::from(a.v3(1), a.v3(3));)
OP(AB3_fromC, B3 z; z.set(a.cb3(0)); o << z << B3::from(a.cb3(1));)
OP(AB3_bulk, int n = a.n(1, 1, 9); size_t ss; const V3* s = a.bulk(a.p.p3[a.idx(2)], n, ss); B3 b; if (!a.strided()) b.set(n, s); else b.set(n, s, (int)ss); o << b; B3 c = (!a.strided()) ? B3::from(n, s) : B3::from(n, s, (int)ss); o << c;)
OP(AB3_add, B3 z = a.b3(0); for (int i = 1; i < 5; i++) z.add(a.v3(i)); o << z;)
OP(AB3_setops, o << B3::fromIntersection(a.b3(0), a.b3(1)) << B3::fromUnion(a.b3(0), a.b3(1));)
OP(AB3_assign, B3 z = a.b3(0); z += a.v3(1); o << z; z -= a.v3(2); o << z; z *= a.s(3); o << z; z /= a.pos(4); o << z; z.scaleCentered(a.pos(2)); o << z;)
OP(AB3_arith, o << a.b3(0) + a.v3(1) << a.b3(0) - a.v3(1) << a.b3(0) * a.s(2) << a.b3(0) / a.pos(2);)
OP(AB3_cmp, o << (a.b3(0) == a.b3(1)) << (a.b3(0) != a.b3(1)) << (a.b3(0) == a.b3(0)) << a.b3(2).isNull();)
OP(AB3_props, o << a.b3(0).center() << a.b3(0).extents() << a.b3(0).size() << a.b3(0).innerSphere() << a.b3(0).outerSphere() << a.b3(0).volume() << a.b3(1).pointAt(a.v3(2)) << a.b3(0).template cast<float>() << a.b3(0).template cast<double>();)
OP(AB3_contains, o << a.b3(0).contains(a.v3(1)) << a.b3(0).contains(a.b3(1)) << a.b3(0).intersects(a.b3(1)) << a.b3(0).contains(a.sp(2));)
OP(AB3_hitsRay, R t = 0; bool h = a.b3(0).hits(t, a.ry3(1)); o << h; if (h) o << t; R t1 = 0; R t2 = 0; h = a.b3(2).intersects(t1, t2, a.ry3(1)); o << h; if (h) o << t1 << t2;)
OP(AB3_hitsLine, R t = 0; bool h = a.b3(0).hits(t, a.l3(1)); o << h; if (h) o << t; R t1 = 0; R t2 = 0; h = a.b3(2).intersects(t1, t2, a.l3(1)); o << h; if (h) o << t1 << t2;)
OP(CB3_ctor, CB3 z; z.set(a.v3(0)); o << z << CB3(a.v3(0), a.v3(1)); z.set(a.v3(2), a.v3(3)); o << z << CB3::from(a.v3(4)) << CB3::from(a.v3(1), a.v3(3));)
OP(CB3_fromA, CB3 z; z.set(a.b3(0)); o << z;)
OP(CB3_bulk, int n = a.n(1, 1, 9); size_t ss; const V3* s = a.bulk(a.p.p3[a.idx(2)], n, ss); CB3 b; if (!a.strided()) b.set(n, s); else b.set(n, s, (int)ss); o << b; CB3 c = (!a.strided()) ? CB3::from(n, s) : CB3::from(n, s, (int)ss); o << c;)
OP(CB3_add, CB3 z = a.cb3(0); for (int i = 1; i < 5; i++) z.add(a.v3(i)); o << z;)
OP(CB3_assign, CB3 z = a.cb3(0); z += a.v3(1); o << z; z -= a.v3(2); o << z; z *= a.s(3); o << z; z /= a.pos(4); o << z;)
OP(CB3_arith, o << a.cb3(0) + a.v3(1) << a.cb3(0) - a.v3(1) << a.cb3(0) * a.s(2) << a.cb3(0) / a.pos(2);)
OP(CB3_cmp, o << (a.cb3(0) == a.cb3(1)) << (a.cb3(0) != a.cb3(1)) << (a.cb3(0) == a.cb3(0)) << a.cb3(2).isNull();)
OP(CB3_props, o << a.cb3(0).inf() << a.cb3(0).sup() << a.cb3(0).size() << a.cb3(0).innerSphere() << a.cb3(0).outerSphere() << a.cb3(0).volume() << a.cb3(1).pointAt(a.v3(2)) << a.cb3(0).template cast<float>() << a.cb3(0).template cast<double>();)
OP(CB3_contains, o << a.cb3(0).contains(a.v3(1)) << a.cb3(0).contains(a.cb3(1)) << a.cb3(0).intersects(a.cb3(1));)
OP(Sp_ctor, Sp z; z.set(a.v3(0), a.pos(1)); o << z << Sp(a.v3(0), a.pos(1)) << Sp::from(a.v3(2), a.pos(3));)
OP(Sp_bulk, int n = a.n(1, 1, 9); size_t ss; const V3* s = a.bulk(a.p.p3[a.idx(2)], n, ss); Sp b; if (!a.strided()) b.set(n, s); else b.set(n, s, (int)ss); o << b; Sp c = (!a.strided()) ? Sp::from(n, s) : Sp::from(n, s, (int)ss); o << c;)
OP(Sp_assign, Sp z = a.sp(0); z += a.v3(1); o << z; z -= a.v3(2); o << z; z *= a.s(3); o << z; z /= a.pos(4); o << z;)
OP(Sp_arith, o << a.sp(0) + a.v3(1) << a.sp(0) - a.v3(1) << a.sp(0) * a.s(2) << a.sp(0) / a.pos(2);)
OP(Sp_cmp, o << (a.sp(0) == a.sp(1)) << (a.sp(0) != a.sp(1)) << (a.sp(0) == a.sp(0));)
OP(Sp_contains, o << a.sp(0).contains(a.v3(1)) << a.sp(0).contains(a.sp(1)) << a.sp(0).intersects(a.sp(1)); V3 h; R t = 0; bool r = a.sp(2).intersects(h, t, a.sp(3)); o << r; if (r) o << h << t;)
OP(Sp_misc, const Sp& z = a.sp(0); o << z.data()[0] << z.data()[3] << z.template cast<float>() << z.template cast<double>();)
OP(Sp_line, V3 h; R t = 0; bool r = a.sp(0).hits(h, t, a.l3(1)); o << r; if (r) o << h << t; r = a.sp(2).intersects(h, t, a.l3(1)); o << r; if (r) o << h << t; o << a.sp(3).intersects(a.l3(4));)
