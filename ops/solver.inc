OP(S_tri, int n = a.sysn(0, SYS); const R* A_ = a.packed(a.p.da[a.idx(1)], n); const R* B_ = a.packed(a.p.db[a.idx(2)], n); const R* C_ = a.packed(a.p.dc[a.idx(3)], n); const R* r = a.packed(a.p.dr[a.idx(4)], n); R* u = a.template fresh<R>(n); int ok = a.solve(o, [&] { return TD::solve(A_, B_, C_, r, u, n); }); a.list(o, ok, u, n);)
OP(S_tri3, int n = a.sysn(0, PARR); const R* A_ = a.packed(a.p.da[a.idx(1)], n); const R* B_ = a.packed(a.p.db[a.idx(2)], n); const R* C_ = a.packed(a.p.dc[a.idx(3)], n); const V3* r = a.packed(a.p.p3[a.idx(4)], n); V3* u = a.template fresh<V3>(n); int ok = a.solve(o, [&] { return TD::solve(A_, B_, C_, r, u, n); }); a.list(o, ok, u, n);)
OP(S_triBare, int n = a.sysn(0, SYS); const R* A_ = a.packed(a.p.da[a.idx(1)], n > 1 ? n - 1 : 1); const R* B_ = a.packed(a.p.db[a.idx(2)], n); const R* C_ = a.packed(a.p.dc[a.idx(3)], n > 1 ? n - 1 : 1); const R* r = a.packed(a.p.dr[a.idx(4)], n); R* u = a.template fresh<R>(n); int ok = a.solve(o, [&] { return TD::solve(A_, B_, C_, r, u, n); }); a.list(o, ok, u, n);)
OP(S_cyclic, int n = a.sysn(0, SYS); const R* A_ = a.packed(a.p.da[a.idx(1)], n); const R* B_ = a.packed(a.p.db[a.idx(2)], n); const R* C_ = a.packed(a.p.dc[a.idx(3)], n); const R* r = a.packed(a.p.dr[a.idx(4)], n); R* x = a.template fresh<R>(n); R al = a.u(5); R be = a.u(6); if (a.idx(7) == 0) { al = 0; be = 0; } int ok = a.solve(o, [&] { return TD::solveCyclic(A_, B_, C_, al, be, r, x, n); }); a.list(o, ok, x, n);)
OP(S_gauss, int n = a.sysn(0, GMAX); int m = a.n(3, 1, 3); if (n * m > SYS) m = 1; const R* ga = a.p.ga[a.idx(1)]; const R* gb = a.p.dr[a.idx(2)]; R* x = a.scratch(ga, n * n); R* b = a.scratch(gb, n * m); int ok = a.solve(o, [&] { return GJ::solve(x, n, b, m); }); a.unchanged(ok, "the matrix", x, ga, n * n); a.unchanged(ok, "the right-hand side", b, gb, n * m); a.list(o, ok, b, n * m); a.list(o, ok, x, n * n);)
OP(S_gauss2, int n = a.sysn(0, GMAX); const R* ga = a.p.ga[a.idx(1)]; const V2* gb = a.p.p2[a.idx(2)]; R* x = a.scratch(ga, n * n); V2* b = a.scratch(gb, n); int ok = a.solve(o, [&] { return GJ::solve(x, n, b); }); a.unchanged(ok, "the matrix", x, ga, n * n); a.unchanged(ok, "the right-hand side", b, gb, n); a.list(o, ok, b, n);)
OP(S_gauss3, int n = a.sysn(0, GMAX); const R* ga = a.p.ga[a.idx(1)]; const V3* gb = a.p.p3[a.idx(2)]; R* x = a.scratch(ga, n * n); V3* b = a.scratch(gb, n); int ok = a.solve(o, [&] { return GJ::solve(x, n, b); }); a.unchanged(ok, "the matrix", x, ga, n * n); a.unchanged(ok, "the right-hand side", b, gb, n); a.list(o, ok, b, n);)
OP(S_natural, int n = a.sysn(0, PARR); if (n < 2) n = 2; const V3* p = a.packed(a.p.p3[a.idx(1)], n); V3* p2 = a.template fresh<V3>(n - 1); V3* p3 = a.template fresh<V3>(n - 1); int ok = a.solve(o, [&] { return SS::naturalBezierSpline(n, p, p2, p3); }); a.list(o, ok, p2, n - 1); a.list(o, ok, p3, n - 1);)
OP(S_bezier, int n = a.sysn(0, PARR); if (n < 2) n = 2; const V3* p = a.packed(a.p.p3[a.idx(1)], n); const V3& s = a.v3(2); const V3& e = a.v3(3); V3* p2 = a.template fresh<V3>(n - 1); V3* p3 = a.template fresh<V3>(n - 1); int ok = a.solve(o, [&] { return SS::bezierSpline(n, p, s, e, p2, p3); }); a.list(o, ok, p2, n - 1); a.list(o, ok, p3, n - 1);)
OP(S_closed, int n = a.sysn(0, 72); if (n < 2) n = 2; const V3* p = a.packed(a.p.p3[a.idx(1)], n); V3* p2 = a.template fresh<V3>(n); V3* p3 = a.template fresh<V3>(n); int ok = a.solve(o, [&] { return SS::closedBezierSpline(n, p, p2, p3); }); a.list(o, ok, p2, n); a.list(o, ok, p3, n);)
