// Native replay of the absolute zero contracts (C11): a function with extra results whose Taylor coefficients are infinite
// or nan; with zero weights these must contribute exactly nothing, so the derivative equals that of the function without them.
# include "prog.hpp"
# include "main.hpp"
static bool same(double a, double b) { return (a != a && b != b) || a == b; }
static std::string cmpv(const char* what, const dv& a, const dv& b) {
   for(size_t i = 0; i < a.size(); ++i) if( ! same(a[i], b[i]) ) { std::ostringstream o; o.precision(17); o << what << " component " << i << " is " << a[i] << " with the zero weighted results and " << b[i] << " without them"; return o.str(); }
   return "";
}
// operations without any restriction of their domain
static void append(Rng& R, Prog& P, int len) {
   static const double bad[] = { 0.0, 0.0, 1.0, -1.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 2.0, -0.5 };
   for(int t = 0; t < len; ) {
      Ins I; I.a = I.b = I.c = I.d = -1; I.imm = 0; I.op = R.below(NOPC);
      if( I.op >= BLT && I.op <= BNE ) continue;
      if( I.op == VECAD || I.op == DISC ) continue;
      int n = P.nx + P.nd + (int)P.ins.size();
      auto pick = [&]() { int k = R.below(3); if( k == 0 ) return R.below(P.nx + P.nd); if( k == 1 && n > 4 ) return n - 1 - R.below(4); return R.below(n); };
      I.a = pick(); I.b = pick(); I.c = pick(); I.d = pick();
      if( R.below(4) == 0 ) I.b = I.a;
      if( I.op == CONST ) I.imm = bad[R.below(9)];
      else if( I.op >= ADDC ) I.imm = bad[R.below(9)];
      if( I.op == POWI ) I.imm = R.below(7) - 3;
      P.ins.push_back(I); P.par.push_back(0); ++t;
   }
}
static std::string reverse_zero(unsigned long long seed) {
   Rng R(seed); GenOpt G; G.nx = 1 + R.below(3); G.nd = R.below(3); G.len = R.below(7); G.cmp = false; G.nout = 1 + R.below(2);
   std::vector<double> x(G.nx), d(G.nd); for(auto& t : x) t = gen_x(R); for(auto& t : d) t = gen_x(R);
   Prog P = generate(R, G, x, d), Q = P;
   append(R, Q, 1 + R.below(6));
   int n = Q.nx + Q.nd + (int)Q.ins.size(), nb = 1 + R.below(3), ng = (int)P.out.size();
   for(int i = 0; i < nb; ++i) Q.out.push_back(i == 0 ? n - 1 : n - 1 - R.below(std::min(n, 4)));
   int q = 1 + R.below(4);
   CppAD::ADFun<double> f, g; record(P, x, d, g, false); record(Q, x, d, f, false);
   dv xq(G.nx * q); for(int j = 0; j < G.nx; ++j) for(int k = 0; k < q; ++k) xq[j * q + k] = k == 0 ? x[j] : R.below(3) == 0 ? 0.0 : R.uni(-1, 1);
   dv yf = f.Forward(q - 1, xq), yg = g.Forward(q - 1, xq);
   bool inf = false; for(size_t i = ng * q; i < yf.size(); ++i) if( ! std::isfinite(yf[i]) ) inf = true;
   std::ostringstream o; o << Q.str() << " x=" << vs(xq) << " dyn=" << vs(d) << " orders=" << q;
   std::string s;
   {  dv a(yf.begin(), yf.begin() + ng * q); s = cmpv("forward", a, yg); if( s != "" ) return s + " " + o.str(); }
   dv wg(ng * q), wf((ng + nb) * q, 0.0); bool all = R.coin();
   for(int i = 0; i < ng; ++i) for(int k = 0; k < q; ++k) wf[i * q + k] = wg[i * q + k] = all || R.coin() ? R.uni(-1, 1) : 0.0;
   ++n_eval; if( inf ) ++n_nontriv;
   s = cmpv("derivative", f.Reverse(q, wf), g.Reverse(q, wg));
   if( s != "" ) return s + " " + o.str() + " w=" + vs(wg);
   {  dv w1(ng), w2(ng + nb, 0.0); for(int i = 0; i < ng; ++i) w1[i] = w2[i] = R.uni(-1, 1);
      s = cmpv("derivative (weights of the highest order)", f.Reverse(q, w2), g.Reverse(q, w1)); if( s != "" ) return s + " " + o.str() + " w=" + vs(w1); }
   // all weights zero: exactly zero whatever the results are
   {  dv w((ng + nb) * q, 0.0), dw = f.Reverse(q, w); for(double t : dw) if( t != 0 ) { std::ostringstream e; e << "derivative with zero weights is " << t << " " << o.str(); return e.str(); } }
   // weights at order zero only: nothing from the higher orders
   if( q > 1 ) {
      dv w(ng * q, 0.0), w0(ng); for(int i = 0; i < ng; ++i) w[i * q] = w0[i] = R.uni(-1, 1);
      dv a = g.Reverse(q, w), b = g.Reverse(1, w0);
      for(int j = 0; j < G.nx; ++j) { if( ! same(a[j * q], b[j]) ) return "weights of order zero: the derivative depends on higher orders " + o.str() + " w=" + vs(w0) + " got " + vs(a) + " want " + vs(b);
         for(int k = 1; k < q; ++k) if( a[j * q + k] != 0 ) return "weights of order zero: a higher order partial is not zero " + o.str() + " w=" + vs(w0) + " got " + vs(a); } }
   return "";
}
static std::string product(unsigned long long seed) {
   Rng R(seed); const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
   double pool[] = { 0.0, -0.0, 1.0, -1.0, inf, -inf, nan, 1e308, 5e-324, 3.0, R.uni(-2, 2), R.uni(-2, 2) };
   auto pk = [&]() { return pool[R.below(12)]; };
   double x = R.coin() ? 0.0 : pk(), y = pk(), want = x == 0 ? 0.0 : x * y; ++n_eval; if( x == 0 && ! std::isfinite(y) ) ++n_nontriv;
   std::ostringstream o; o.precision(17); o << "azmul(" << x << ", " << y << ") ";
   if( ! same(CppAD::azmul(x, y), want) ) { o << "is " << CppAD::azmul(x, y); return o.str(); }
   if( ! same(CppAD::azmul(float(x), float(y)), float(x) == 0 ? 0 : float(x) * float(y)) ) return o.str() + "wrong for float";
   std::complex<double> c = CppAD::azmul(std::complex<double>(x, 0), std::complex<double>(y, y)); if( x == 0 && ! (c == std::complex<double>(0, 0)) ) return o.str() + "wrong for complex";
   // recorded: every kind of operand; the values at which it was recorded differ from those at which it is evaluated
   int kx = R.below(3), ky = R.below(3), q = 1 + R.below(3); double x0 = R.coin() ? x : pk(), y0 = R.coin() ? y : pk();
   // a constant zero factor is folded when it is recorded, for finite operands (ordinary algebra)
   if( ky == 0 && y == 0 && kx != 0 && ! (std::isfinite(x) && std::isfinite(x0)) ) return "";
   std::vector<AD1> ax = { kx == 2 ? x0 : 1.0, ky == 2 ? y0 : 1.0 }, ad = { kx == 1 ? x0 : 1.0, ky == 1 ? y0 : 1.0 };
   CppAD::Independent(ax, 0, false, ad);
   AD1 u = kx == 0 ? AD1(x) : kx == 1 ? ad[0] : ax[0], v = ky == 0 ? AD1(y) : ky == 1 ? ad[1] : ax[1];
   double z0 = CppAD::Value(CppAD::Var2Par(CppAD::azmul(u, v))), u0 = kx == 0 ? x : x0, v0 = ky == 0 ? y : y0;
   if( ! same(z0, u0 == 0 ? 0.0 : u0 * v0) ) { o << "recorded at " << u0 << "," << v0 << " has the value " << z0; CppAD::AD<double>::abort_recording(); return o.str(); }
   std::vector<AD1> ay = { CppAD::azmul(u, v) };
   CppAD::ADFun<double> f(ax, ay); f.check_for_nan(false);
   f.new_dynamic(dv{ x, y });
   dv z(2 * q); for(int k = 0; k < q; ++k) { z[k] = k == 0 ? x : x == 0 || kx != 2 ? 0.0 : pk(); z[q + k] = k == 0 ? y : ky != 2 ? 0.0 : pk(); }
   dv r = f.Forward(q - 1, z); o << "operand kinds " << kx << ky << " coefficients " << vs(z) << " ";
   if( ! same(r[0], want) ) { o << "recorded has value " << r[0]; return o.str(); }
   if( x == 0 ) for(int k = 0; k < q; ++k) if( r[k] != 0 ) { o << "recorded has coefficient " << r[k] << " of order " << k; return o.str(); }
   return "";
}
static std::string one(const char* mode, unsigned long long seed) { return std::string(mode) == "product" ? product(seed) : reverse_zero(seed); }
