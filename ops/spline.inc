OP(H_eval, HS h(a.v3(0), a.v3(1), a.v3(2), a.v3(3)); o << h.p1() << h.p4() << h.r1() << h.r4() << h.pointAt(a.u(4)) << h.tangentAt(a.u(5)); h.set(a.v3(3), a.v3(2), a.v3(1), a.v3(0)); o << h.pointAt(a.u(4)) << a.hs(6).pointAt(a.u(5)) << a.hs(6).tangentAt(a.u(4));)
OP(H_basis, R t = a.u(0); o << HS::hp1(t) << HS::hp4(t) << HS::hr1(t) << HS::hr4(t) << HS::dhp1(t) << HS::dhp4(t) << HS::dhr1(t) << HS::dhr4(t) << BZ::hp1(t) << BZ::hp2(t) << BZ::hp3(t) << BZ::hp4(t) << BZ::dhp1(t) << BZ::dhp2(t) << BZ::dhp3(t) << BZ::dhp4(t);)
OP(Z_eval, BZ h(a.v3(0), a.v3(1), a.v3(2), a.v3(3)); o << h.p1() << h.p2() << h.p3() << h.p4() << h.r1() << h.r4() << h.pointAt(a.u(4)) << h.tangentAt(a.u(5)); h.set(a.v3(3), a.v3(2), a.v3(1), a.v3(0)); o << h.pointAt(a.u(4)) << a.bz(6).pointAt(a.u(5)) << a.bz(6).tangentAt(a.u(4));)
OP(Z_frenet, M3 f; bool r = a.bz(0).frenetFrameAt(f, a.u(1)); o << r; if (r) o << f;)
OP(Z_split, BZ s; BZ e; a.bz(0).split(a.u(1), s, e); o << s.p1() << s.p2() << s.p3() << s.p4() << e.p1() << e.p2() << e.p3() << e.p4();)
OP(Z_length, o << a.bz(0).length() << a.bz(1).length(a.n(2, 1, 16));)
OP(Z_fwd, FD f(a.v3(0), a.v3(1), a.v3(2), a.v3(3), a.u(4)); for (int i = 0; i < 5; i++) { o << f.currentPoint() << f.currentTangent(); f.stepForward(); })
