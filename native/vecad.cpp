// Native replay of the contracts of recorded vectors (C13): random programs with several vectors, stores and loads with
// constant, dynamic and variable indices and values, compared with plain arrays of Taylor series.
# include "vecprog.hpp"
# include "main.hpp"
static std::string one(const char* mode, unsigned long long seed) {
   Rng R(seed); VProg P = vgen(R); dv x0, d0; for(int i = 0; i < P.nx; ++i) x0.push_back(R.uni(-1.5, 1.5)); for(int i = 0; i < P.nd; ++i) d0.push_back(R.uni(-1.5, 1.5));
   std::vector<double> s0; if( ! veval<double>(P, x0, d0, s0) ) return ""; for(double t : s0) if( ! (std::fabs(t) < 50) ) return "";
   std::ostringstream o; o.precision(17);
   earlier(P); std::vector<AD1> ax(x0.begin(), x0.end()), ad(d0.begin(), d0.end()), as, ay; CppAD::Independent(ax, 0, true, ad); veval(P, ax, ad, as);
   std::string ID = P.str() + " rec x=" + vs(x0) + " d=" + vs(d0);
   for(size_t i = 0; i < s0.size(); ++i) if( ! close(CppAD::Value(CppAD::Var2Par(as[i])), s0[i], 1, 1e-13) ) { o << "value while recording of s" << i << " is " << CppAD::Value(CppAD::Var2Par(as[i])) << ", required " << s0[i] << " " << ID; CppAD::AD<double>::abort_recording(); return o.str(); }
   for(int i : P.out) ay.push_back(as[i]);
   CppAD::ADFun<double> f; f.Dependent(ax, ay); f.check_for_nan(false);
   bool opt = R.below(3) == 0; if( opt ) { f.optimize(); ID += " optimized"; }
   ++n_eval; sample(ID);
   size_t n = P.nx, M = P.out.size();
   for(int t = 0; t < 4; ++t) {
      dv x = x0, d = d0; std::vector<double> s;
      if( t ) { for(auto& v : x) v += R.uni(-1.5, 1.5); for(auto& v : d) v += R.uni(-1.5, 1.5); }
      if( ! veval<double>(P, x, d, s) ) continue; bool big = false; for(double u : s) if( ! (std::fabs(u) < 50) ) big = true; if( big ) continue;
      if( P.nd ) f.new_dynamic(d);
      int K = R.below(4); orc::order = K; std::vector< Jet<ld> > jx(n), jd(P.nd), js;
      for(size_t i = 0; i < n; ++i) { jx[i].c[0] = x[i]; for(int k = 1; k <= K; ++k) jx[i].c[k] = (double)R.uni(-1, 1); } for(int i = 0; i < P.nd; ++i) jd[i] = Jet<ld>(d[i]);
      veval(P, jx, jd, js); ld sc = 0; for(auto& j : js) for(auto c : j.c) sc = std::max(sc, (ld)std::fabs(c)); if( ! (sc < 1e4) ) continue;
      ++n_nontriv;
      std::string at = " at x=" + vs(x) + " d=" + vs(d) + " " + ID;
      bool multi = R.coin() && K > 0;
      if( R.coin() || multi ) for(int k = 0; k <= (multi ? 0 : K); ++k) { dv xk(n); for(size_t i = 0; i < n; ++i) xk[i] = jx[i].c[k]; dv y = f.Forward(k, xk); if( R.below(3) == 0 ) f.capacity_order(k + 1 + R.below(3));
         for(size_t i = 0; i < M; ++i) if( ! close(y[i], js[P.out[i]].c[k], sc, 1e-9) ) { o << "order " << k << " of output " << i << " is " << y[i] << ", required " << (double)js[P.out[i]].c[k] << at; return o.str(); } }
      else { dv xq(n * (K + 1)); for(size_t i = 0; i < n; ++i) for(int k = 0; k <= K; ++k) xq[i * (K + 1) + k] = jx[i].c[k]; dv y = f.Forward(K, xq);
         for(size_t i = 0; i < M; ++i) for(int k = 0; k <= K; ++k) if( ! close(y[i * (K + 1) + k], js[P.out[i]].c[k], sc, 1e-9) ) { o << "order " << k << " of output " << i << " is " << y[i * (K + 1) + k] << ", required " << (double)js[P.out[i]].c[k] << " (orders together)" << at; return o.str(); } }
      if( multi ) { // two directions: the one of jx and another
         std::vector< Jet<ld> > kx = jx, ks; for(size_t i = 0; i < n; ++i) for(int k = 1; k <= K; ++k) kx[i].c[k] = (double)R.uni(-1, 1); veval(P, kx, jd, ks);
         for(int k = 1; k <= K; ++k) { dv xq(n * 2); for(size_t i = 0; i < n; ++i) { xq[2 * i] = kx[i].c[k]; xq[2 * i + 1] = jx[i].c[k]; } dv y = f.Forward(k, 2, xq);
            for(size_t i = 0; i < M; ++i) for(int l = 0; l < 2; ++l) { ld w = l ? js[P.out[i]].c[k] : ks[P.out[i]].c[k]; if( ! close(y[2 * i + l], w, sc, 1e-9) ) { o << "order " << k << " direction " << l << " of output " << i << " is " << y[2 * i + l] << ", required " << (double)w << at; return o.str(); } } }
         continue;
      }
      int q = 1 + R.below(K + 1); if( n * q > (size_t)orc::maxdir ) continue;
      dv w(M * q); for(auto& v : w) v = R.uni(-1, 1); dv dw = f.Reverse(q, w);
      orc::order = q - 1; orc::ndir = int(n * q); std::vector< Jet<Dual> > px(n), pd(P.nd), ps;
      for(size_t i = 0; i < n; ++i) for(int k = 0; k < q; ++k) { px[i].c[k] = Dual(jx[i].c[k]); px[i].c[k].g[i * q + k] = 1; } for(int i = 0; i < P.nd; ++i) pd[i] = Jet<Dual>(d[i]);
      veval(P, px, pd, ps);
      for(size_t j = 0; j < n * q; ++j) { ld want = 0; for(size_t i = 0; i < M; ++i) for(int k = 0; k < q; ++k) want += w[q == 1 ? i : i * q + k] * ps[P.out[i]].c[k].g[j];
         if( ! close(dw[j], want, sc * 4, 1e-8) ) { o << "reverse of order " << q << ": partial " << j << " is " << dw[j] << ", required " << (double)want << " w=" << vs(w) << at; return o.str(); } }
   }
   return "";
}
