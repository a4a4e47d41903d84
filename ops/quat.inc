OP(Q_ctor, Q z; z.setIdentity(); o << z << Q(a.s(0), a.s(1), a.s(2), a.s(3)) << Q(a.s(0), a.s(1), a.s(2), a.s(3), false);)
OP(Q_setMat, Q z; z.set(a.r3(0)); o << z << Q::from(a.r3(1)) << Q::from(a.m4(2)) << Q::from(a.m3(3)); z.set(a.m4(0)); o << z;)
OP(Q_axis, Q z; z.set(a.dir(0), a.ang(1)); o << z << Q::from(a.v3(2), a.ang(3));)
OP(Q_fromTo, Q z; z.set(a.v3(0), a.v3(1)); o << z << Q::from(a.dir(2), a.dir(3));)
OP(Q_lerp, Q z; z.lerp(a.q(0), a.q(1), a.u(2)); o << z << Q::fromLerp(a.q(3), a.q(1), a.u(2));)
OP(Q_slerp, Q z = a.q(3); z.slerp(z, a.q(1), a.u(2)); o << z << Q::fromSlerp(a.q(0), a.q(1), a.u(2));)
OP(Q_slerpMax, Q z = a.q(3); z.slerpMaxAngle(a.q(0), a.q(1), a.pos(2)); o << z << Q::fromSlerpMaxAngle(a.q(0), a.q(1), a.u(2));)
OP(Q_slerpNI, Q z = a.q(3); z.slerpNoInvert(a.q(0), a.q(1), a.u(2)); o << z << Q::fromSlerpNoInvert(a.q(0), a.q(1), a.u(2));)
OP(Q_squad, Q z; z.set(a.q(0), a.q(1), a.q(2), a.q(3), a.u(4)); o << z << Q::from(a.q(1), a.q(0), a.q(3), a.q(2), a.u(4));)
OP(Q_norm, Q z(a.s(0), a.s(1), a.s(2), a.s(3), false); z.normalize(); o << z << Q::from(a.q(0)); z.set(a.q(1)); o << z; z = a.q(2); o << z;)
OP(Q_arith, o << a.q(0) * a.q(1) << a.q(0) * a.v3(1) << -a.q(0) << a.q(0) / a.q(1);)
OP(Q_cmp, o << (a.q(0) == a.q(1)) << (a.q(0) != a.q(1)) << (a.q(0) == a.q(0));)
OP(Q_rotated, o << a.q(0).rotated(a.c3(1)) << a.q(0).rotated(a.v3(2)) << a.q(0).inverse();)
OP(Q_axisAngle, V3 v; R r; a.q(0).toAxisAngle(v, r); o << v << r;)
OP(Q_logexp, o << Q::log(a.q(0)) << Q::exp(Q::log(a.q(1)));)
OP(Q_misc, const Q& q = a.q(0); o << q.data()[0] << q.data()[1] << q.data()[2] << q.data()[3] << q.template cast<float>() << q.template cast<double>() << Q::One;)
