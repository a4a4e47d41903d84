OP(K_V2, o << V2::Zero << V2::OneX << V2::OneY;)
OP(K_V3, o << V3::Zero << V3::OneX << V3::OneY << V3::OneZ;)
OP(K_V4, o << V4::Zero << V4::OneX << V4::OneY << V4::OneZ << V4::OneW << V4::OneXnw << V4::OneYnw << V4::OneZnw;)
OP(K_M2, o << M2::Zero << M2::One;)
OP(K_M3, o << M3::Zero << M3::One;)
OP(K_M34, o << M34::Zero << M34::One;)
OP(K_M4, o << M4::Zero << M4::One;)
OP(K_Q, o << Q::One;)
OP(K_B2, o << B2::Zero << B2::One;)
OP(K_B3, o << B3::Zero << B3::One;)
OP(K_CB2, o << CB2::One;)
OP(K_CB3, o << CB3::One;)
OP(K_Ci, o << Ci::One;)
OP(K_Sp, o << Sp::One;)
OP(K_Pl, o << Pl::XY << Pl::YZ << Pl::ZX;)
OP(K_RGB, o << RGB::Black << RGB::White << RGB::Red << RGB::Green << RGB::Blue;)
OP(K_RGBA, o << RGBA::Black << RGBA::White << RGBA::Red << RGBA::Green << RGBA::Blue;)
OP(K_HSV, o << HSV::Black << HSV::White << HSV::Red << HSV::Green << HSV::Blue;)
OP(K_num, typedef Constants<R> C; o << C::PI << C::PI_TIMES_2 << C::PI_OVER_2 << C::PI_OVER_4 << C::PI_OVER_8 << C::PI_OVER_16 << C::PI_OVER_3 << C::PI_OVER_6 << C::MIN_VALUE << C::MAX_VALUE << C::MAX_NEG_VALUE;)
OP(K_use, o << V3::OneX * a.r3(0) << M3::One * a.m3(1) << M4::One.inversed() << Q::One * a.q(2) << B3::One.contains(a.v3(3)) << Pl::XY.distance(a.v3(4)) << M34::One * a.v3(5) << M2::One * a.v2(6) << RGB::Red.toHSV();)
OP(K_use2, M3 m = M3::One; m.rotate(a.q(0)); o << m; M4 n = M4::One; n.translate(a.v3(1)); o << n; M34 p = M34::One; p.rotate(a.q(2)); o << p; V3 v = V3::OneZ; v *= a.s(3); o << v; Q q = Q::One; q = q * a.q(4); o << q; M2 t = M2::Zero; t = M2::One; t.rotate(a.ang(5)); o << t;)
