OP(R_intRand, o << mathlib::rand(1 + (int)a.idx(0) * 37);)
OP(R_intBetween, o << randBetween(-(int)a.idx(0) * 5, 1 + (int)a.idx(1) * 11);)
OP(R_intAmp, o << randAmplitude(1 + (int)a.idx(0) * 13);)
OP(R_intAmp2, o << randAmplitude((int)a.idx(0), (int)a.idx(0) + 1 + (int)a.idx(1));)
OP(R_real, o << mathlib::rand(a.pos(0));)
OP(R_between, o << randBetween(a.s(0), a.s(1));)
OP(R_amp, o << randAmplitude(a.pos(0));)
OP(R_amp2, o << randAmplitude(a.pos(0), a.pos(0) + a.pos(1));)
OP(R_unit2, o << V2::randomUnitVector();)
OP(R_unit3, o << V3::randomUnitVector();)
OP(R_rgb, o << RGB::random();)
OP(R_rgba, o << RGBA::random() << RGBA::random(a.u(0));)
OP(R_hsv, o << HSV::random();)
