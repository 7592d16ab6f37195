// Native replay of the contracts of forward and reverse mode through the public interface.
# include "prog.hpp"
namespace orc { int ndir = 0; int order = 0; }
long n_eval = 0, n_nontriv = 0;
using orc::Jet; using orc::Dual;
typedef std::vector<double> dv;
static bool verbose = false;
// oracle: Taylor coefficients of every output in one direction
static void oracle(const Prog& P, const std::vector< std::vector<ld> >& xc, const dv& dyn, int K, std::vector< std::vector<ld> >& yc, ld& sc) {
   orc::order = K;
   std::vector< Jet<ld> > x(P.nx), d(P.nd), v;
   for(int i = 0; i < P.nx; ++i) for(int k = 0; k <= K; ++k) x[i].c[k] = xc[i][k];
   for(int i = 0; i < P.nd; ++i) d[i] = Jet<ld>(dyn[i]);
   EvalInfo e; e.force = &P.cmp; eval(P, x, d, v, e);
   yc.assign(P.out.size(), std::vector<ld>(K + 1));
   for(size_t i = 0; i < P.out.size(); ++i) for(int k = 0; k <= K; ++k) yc[i][k] = v[P.out[i]].c[k];
   sc = 0; for(auto& j : v) for(auto c : j.c) { ld a = std::fabs(c); if( ! (a <= 1e5) ) { sc = 1e9; return; } sc = std::max(sc, a); }
}
static ld sup(const std::vector< std::vector<ld> >& y) { ld s = 0; for(auto& r : y) for(auto v : r) if(std::isfinite((double)v)) s = std::max(s, std::fabs(v)); return s; }
static std::string one(const char* mode, unsigned long long seed) {
   Rng R(seed); GenOpt G;
   G.nx = 1 + R.below(3); G.nd = R.below(3); G.len = 1 + R.below(10); G.nout = 1 + R.below(3);
   dv x0, d0; for(int i = 0; i < G.nx; ++i) x0.push_back(gen_x(R)); for(int i = 0; i < G.nd; ++i) d0.push_back(gen_x(R));
   Prog P = generate(R, G, x0, d0);
   CppAD::ADFun<double> f; bool opt = R.below(4) == 0;
   if( P.ins.empty() || ! wellposed(P, x0, d0, true, opt) ) return "";
   record(P, x0, d0, f, opt);
   dv x = x0; if( R.coin() ) { dv t = x; for(auto& v : t) v += R.uni(-0.4, 0.4); if( wellposed(P, t, d0, true, opt) ) x = t; }
   std::string m(mode); std::ostringstream o; o.precision(17);
   size_t n = P.nx, M = P.out.size(); int K = R.below(5); if( R.below(6) == 0 ) K = 5 + R.below(3);
   std::vector< std::vector<ld> > xc(n, std::vector<ld>(K + 1)), yc;
   for(size_t i = 0; i < n; ++i) for(int k = 0; k <= K; ++k) xc[i][k] = k == 0 ? x[i] : R.below(4) == 0 ? 0.0 : (ld)(double)R.uni(-1, 1);
   std::string id = P.str() + (opt ? " optimized" : "") + " x=" + vs(x) + " d=" + vs(d0) + " rec=" + vs(x0);
   if( m == "forward" || m == "reverse" ) {
      ld sc; oracle(P, xc, d0, K, yc, sc);
      std::vector<dv> got(M, dv(K + 1));
      int style = R.below(3);
      if( style == 0 ) {
         for(int k = 0; k <= K; ++k) { dv xk(n); for(size_t i = 0; i < n; ++i) xk[i] = xc[i][k]; dv y = f.Forward(k, xk); for(size_t i = 0; i < M; ++i) got[i][k] = y[i]; if( R.below(5) == 0 ) f.capacity_order(R.below(K + 3) + k + 1); }
      } else {
         int k0 = style == 1 ? 0 : R.below(K + 1);     // orders 0..k0-1 together, then k0..K
         int q = 0;
         while( q <= K ) {
            int last = (q == 0 && k0 > 0 && style == 2) ? k0 - 1 : K;
            dv y;
            if( q == 0 || last == q ) { dv xq(n * (last + 1 - (q == last && q > 0 ? q : 0))); size_t w = last + 1 - (q == last && q > 0 ? q : 0);
               for(size_t i = 0; i < n; ++i) for(size_t k = 0; k < w; ++k) xq[i * w + k] = xc[i][last + 1 - w + k]; y = f.Forward(last, xq);
               for(size_t i = 0; i < M; ++i) for(size_t k = 0; k < w; ++k) got[i][last + 1 - w + k] = y[i * w + k]; q = last + 1; }
            else { dv xk(n); for(size_t i = 0; i < n; ++i) xk[i] = xc[i][q]; y = f.Forward(q, xk); for(size_t i = 0; i < M; ++i) got[i][q] = y[i]; ++q; }
         }
      }
      if( ! (sc < 1e5) ) return "";
      ++n_eval;
      if( m == "forward" ) {
         if( K > 0 ) ++n_nontriv;
         for(size_t i = 0; i < M; ++i) for(int k = 0; k <= K; ++k) if( ! close(got[i][k], yc[i][k], sc, K >= 5 ? 1e-6 : K >= 3 ? 1e-8 : 1e-9) ) {
            o << "order " << k << " of output " << i << " is " << got[i][k] << ", Taylor series of the function gives " << (double)yc[i][k] << "; style=" << style << " K=" << K << " " << id; return o.str(); }
         return "";
      }
      // reverse: derivative of sum w y with respect to every coefficient
      int q = 1 + R.below(K + 1); bool single = R.below(2);
      if( n * q > orc::maxdir ) return "";
      dv w(single ? M : M * q);
      for(auto& v : w) v = R.below(4) == 0 ? 0.0 : R.uni(-1, 1);
      dv dw = f.Reverse(q, w);
      orc::order = q - 1; orc::ndir = int(n * q);
      std::vector< Jet<Dual> > jx(n), jd(P.nd), v;
      for(size_t i = 0; i < n; ++i) for(int k = 0; k < q; ++k) { jx[i].c[k] = Dual(xc[i][k]); jx[i].c[k].g[i * q + k] = 1; }
      for(int i = 0; i < P.nd; ++i) jd[i] = Jet<Dual>(d0[i]);
      EvalInfo e; e.force = &P.cmp; eval(P, jx, jd, v, e);
      std::vector<ld> want(n * q, 0);
      for(size_t i = 0; i < M; ++i) for(int k = 0; k < q; ++k) {
         ld ww = single ? (k == q - 1 ? w[i] : 0) : w[i * q + k];
         for(size_t j = 0; j < n * q; ++j) want[j] += ww * v[P.out[i]].c[k].g[j];
      }
      ld s2 = sup({want}); for(auto& j : v) for(auto& c : j.c) for(int g = 0; g < orc::ndir; ++g) { ld a = std::fabs(c.g[g]); if( ! (a <= 1e5) ) return ""; s2 = std::max(s2, a); } if( ! (s2 < 1e5) ) return "";
      ++n_nontriv;
      for(size_t j = 0; j < n; ++j) for(int k = 0; k < q; ++k) {
         // with a weight of size m the order indices are stored in reverse (documented)
         ld wt = want[j * q + k]; double gd = dw[single ? j * q + q - k - 1 : j * q + k];
         if( ! close(gd, wt, std::max(s2, sc), q >= 5 ? 1e-6 : q >= 4 ? 1e-8 : 1e-9) ) {
            o << "partial with respect to order " << k << " of input " << j << " is " << gd << ", derivative of the weighted Taylor coefficients is " << (double)wt
              << "; q=" << q << " K=" << K << " w=" << vs(w) << " xcoef="; for(auto& r : xc) o << vs(r); o << " " << id; return o.str(); }
      }
      // the stored coefficients survive a reverse sweep
      if( R.below(3) == 0 ) {
         dv dw2 = f.Reverse(q, w);
         for(size_t j = 0; j < n * q; ++j) if( dw2[j] != dw[j] && std::isfinite(dw[j]) ) { o << "a second reverse sweep differs: " << dw2[j] << " vs " << dw[j] << " " << id; return o.str(); }
      }
      return "";
   }
   // multiple directions
   int q = 1 + R.below(4), r = 1 + R.below(3);
   std::vector< std::vector< std::vector<ld> > > X(r, std::vector< std::vector<ld> >(n, std::vector<ld>(q + 1))), Y(r);
   for(size_t i = 0; i < n; ++i) for(int k = 0; k <= q; ++k) for(int l = 0; l < r; ++l) X[l][i][k] = k == 0 ? x[i] : R.below(4) == 0 ? 0.0 : (ld)(double)R.uni(-1, 1);
   ld sc = 0;
   for(int l = 0; l < r; ++l) { ld s; oracle(P, X[l], d0, q, Y[l], s); sc = std::max(sc, s); }
   if( ! (sc < 1e5) ) return "";
   ++n_eval; if( r > 1 || q > 1 ) ++n_nontriv;
   f.Forward(0, x);
   for(int k = 1; k <= q; ++k) {
      dv xq(n * r); for(size_t i = 0; i < n; ++i) for(int l = 0; l < r; ++l) xq[i * r + l] = X[l][i][k];
      dv y = f.Forward(k, r, xq);
      for(size_t i = 0; i < M; ++i) for(int l = 0; l < r; ++l) if( ! close(y[i * r + l], Y[l][i][k], sc, K >= 5 ? 1e-6 : K >= 3 ? 1e-8 : 1e-9) ) {
         o << "order " << k << " direction " << l << " of output " << i << " is " << y[i * r + l] << ", Taylor series gives " << (double)Y[l][i][k] << "; r=" << r << " " << id; return o.str(); }
   }
   return "";
}
int main(int argc, char** argv) {
   const char* mode = argv[1]; unsigned long long seed = strtoull(argv[2], 0, 10); long count = atol(argv[3]);
   long bad = 0; double limit = argc > 4 ? atof(argv[4]) : 1e9; clock_t t0 = clock();
   for(long i = 0; i < count; ++i) {
      unsigned long long s = seed * 1000003ull + i;
      if( count == 1 ) s = seed;
      std::string d = atomic_case([&]() { return one(mode, s); });
      if( ! d.empty() ) { report(mode, s, d); if( ++bad >= 3 ) break; }
      if( (i & 255) == 0 && double(clock() - t0) / CLOCKS_PER_SEC > limit ) break;
   }
   printf("DONE\t%ld\t%ld\t%ld\n", n_eval, n_nontriv, bad);
   return 0;
}
