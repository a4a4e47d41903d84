OP(RGB_ctor, o << RGB(a.u(0)) << RGB(a.u(0), a.u(1), a.u(2)) << RGB(a.n(0, 0, 255), a.n(1, 0, 255), a.n(2, 0, 255)); RGB z; z.set(a.u(0), a.u(1), a.u(2)); o << z; z.set(a.rgb(4)); o << z;)
OP(RGB_interp, o << RGB::fromInterp(a.rgb(0), a.rgb(1), a.u(2)); RGB z = a.rgb(3); z.interp(z, a.rgb(0), a.u(4)); o << z;)
OP(RGB_arith, RGB z = a.rgb(0); z += a.rgb(1); o << z; z -= a.rgb(2); o << z; z *= a.s(3); o << z; z /= a.pos(4); o << z << a.rgb(0) + a.rgb(1) << -a.rgb(0) << a.rgb(0) - a.rgb(1) << a.rgb(0) * a.s(1) << a.rgb(0) / a.pos(1) << (a.rgb(0) == a.rgb(1)) << (a.rgb(0) != a.rgb(1)) << (a.rgb(0) == a.rgb(0));)
OP(RGB_conv, o << a.rgb(0).toHSV() << a.rgb(1).toRGBA(a.u(2)); const RGB& z = a.rgb(3); o << z.data()[0] << z.data()[2] << z.template cast<float>() << z.template cast<double>();)
OP(RGBA_ctor, o << RGBA(a.u(0)) << RGBA(a.u(0), a.u(1), a.u(2), a.u(3)) << RGBA(a.n(0, 0, 255), a.n(1, 0, 255), a.n(2, 0, 255)); RGBA z; z.set(a.u(0), a.u(1), a.u(2), a.u(3)); o << z; z.set(a.rgba(4)); o << z;)
OP(RGBA_interp, o << RGBA::fromInterp(a.rgba(0), a.rgba(1), a.u(2)); RGBA z = a.rgba(3); z.interp(z, a.rgba(0), a.u(4)); o << z;)
OP(RGBA_arith, RGBA z = a.rgba(0); z += a.rgba(1); o << z; z -= a.rgba(2); o << z; z *= a.s(3); o << z; z /= a.pos(4); o << z << a.rgba(0) + a.rgba(1) << -a.rgba(0) << a.rgba(0) - a.rgba(1) << a.rgba(0) * a.s(1) << a.rgba(0) / a.pos(1) << (a.rgba(0) == a.rgba(1)) << (a.rgba(0) != a.rgba(1)) << (a.rgba(0) == a.rgba(0));)
OP(RGBA_conv, o << a.rgba(0).toHSV() << a.rgba(1).toRGB(); const RGBA& z = a.rgba(3); o << z.data()[0] << z.data()[3] << z.template cast<float>() << z.template cast<double>();)
OP(HSV_all, HSV z; z.set(a.u(0), a.u(1), a.u(2)); o << z << HSV(a.u(0), a.u(1), a.u(2)); z.set(a.hsv(3)); o << z << HSV::fromInterp(a.hsv(0), a.hsv(1), a.u(2)); z.interp(z, a.hsv(4), a.u(5)); o << z << (a.hsv(0) == a.hsv(1)) << (a.hsv(0) != a.hsv(1)) << z.data()[0] << z.data()[2] << z.template cast<float>() << z.template cast<double>();)
OP(HSV_conv, o << a.hsv(0).toRGB() << a.hsv(1).toRGBA(a.u(2)) << a.hsv(0).toRGB().toHSV();)
OP(F_coord, Coord c = a.c3(0); o << next2D(a.c2(1)) << next3D(c);)
OP(F_abs, o << mathlib::abs(a.s(0)) << mathlib::abs(a.in(1)) << degreeToRadian(a.s(0)) << radianToDegree(a.s(1));)
OP(F_trig, o << mathlib::asin(a.s(0)) << mathlib::acos(a.s(1)) << mathlib::asin(a.u(2)) << mathlib::acos(a.u(3));)
OP(F_mod, o << mathlib::fmod(a.s(0), a.pos(1)) << fmodPositive(a.s(0), a.pos(1)) << fmodCentered(a.s(2), a.pos(3));)
OP(F_dist, o << distance(a.v2(0), a.v2(1)) << distanceSqr(a.v2(0), a.v2(1)) << distance(a.v3(2), a.v3(3)) << distanceSqr(a.v3(2), a.v3(3));)
OP(F_minmax, o << mathlib::min(a.s(0), a.s(1)) << mathlib::max(a.s(0), a.s(1)) << mathlib::min(a.in(2), a.in(3)) << mathlib::max(a.in(2), a.in(3)) << clippedBetween(a.s(0), a.s(1), a.s(2)) << clippedBetween(a.in(0), a.in(1), a.in(2));)
OP(F_eval, for (int i = 0; i <= (int)ResponseCurveType::Cosine; i++) o << evaluate(a.s(0), a.u(1) * R(0.9), (ResponseCurveType)i);)
OP(I_ratio, for (int i = 0; i <= (int)InterpolationMode::CircularInOut; i++) o << interpolationRatio(a.u(0), (InterpolationMode)i);)
OP(I_lerp, o << lerp(a.in(0), a.in(1), a.u(2)) << lerp(a.s(0), a.s(1), a.u(2)) << lerp(a.v2(0), a.v2(1), a.u(2)) << lerp(a.v3(0), a.v3(1), a.u(2));)
OP(I_lerpMode, InterpolationMode m = (InterpolationMode)(a.idx(3) * 2 % 29); o << lerp(a.in(0), a.in(1), a.u(2), m) << lerp(a.s(0), a.s(1), a.u(2), m) << lerp(a.v2(0), a.v2(1), a.u(2), m) << lerp(a.v3(0), a.v3(1), a.u(2), m);)
OP(I_clerp, o << clerp(a.ang(0), a.ang(1), a.u(2)) << clerpMaxAngle(a.ang(0), a.ang(1), a.pos(2)); R r = 0; o << clerpMaxAngle(a.ang(2), a.ang(3), a.pos(1), r) << r;)
