// Native replay of the contracts of the derivative drivers (C19): random functions, dimensions, points, index selections and
// weights; every element of the result is compared with first and second partials from series of dual numbers.
# include "prog.hpp"
# include "main.hpp"
using orc::Jet; using orc::Dual;
typedef std::vector<size_t> sv;
struct Ref { std::vector<std::vector<ld>> J; std::vector<std::vector<std::vector<ld>>> H; ld sc; };
static bool reference(const Prog& P, const dv& x, const dv& dyn, Ref& r) {
   int n = P.nx; orc::order = 1; orc::ndir = n; size_t m = P.out.size(); r.sc = 0;
   r.J.assign(m, std::vector<ld>(n)); r.H.assign(m, std::vector<std::vector<ld>>(n, std::vector<ld>(n)));
   for(int k = 0; k < n; ++k) {
      std::vector< Jet<Dual> > jx(n), jd(P.nd), v;
      for(int i = 0; i < n; ++i) { jx[i].c[0] = Dual(x[i]); jx[i].c[0].g[i] = 1; if( i == k ) jx[i].c[1] = Dual(1.0); }
      for(int i = 0; i < P.nd; ++i) jd[i] = Jet<Dual>(dyn[i]);
      EvalInfo e; e.force = &P.cmp; eval(P, jx, jd, v, e);
      for(auto& j : v) for(auto& c : j.c) { ld a = std::fabs(c.v); if( ! (a <= 1e5) ) return false; r.sc = std::max(r.sc, a); for(int g = 0; g < n; ++g) { a = std::fabs(c.g[g]); if( ! (a <= 1e5) ) return false; r.sc = std::max(r.sc, a); } }
      for(size_t i = 0; i < m; ++i) { r.J[i][k] = v[P.out[i]].c[1].v; for(int j = 0; j < n; ++j) r.H[i][k][j] = v[P.out[i]].c[1].g[j]; }
   }
   return true;
}
static std::string one(const char* mode, unsigned long long seed) {
   Rng R(seed); GenOpt G; G.nx = 1 + R.below(5); G.nd = R.below(3); G.len = 1 + R.below(12); G.nout = 1 + R.below(5);
   dv x0(G.nx), d0(G.nd); for(auto& t : x0) t = gen_x(R); for(auto& t : d0) t = gen_x(R);
   Prog P = generate(R, G, x0, d0); bool opt = R.below(4) == 0;
   if( P.ins.empty() || ! wellposed(P, x0, d0, true, opt) ) return "";
   CppAD::ADFun<double> f; record(P, x0, d0, f, opt);
   dv x = x0; if( R.coin() ) { dv t = x; for(auto& v : t) v += R.uni(-0.4, 0.4); if( wellposed(P, t, d0, true, opt) ) x = t; }
   Ref r; if( ! reference(P, x, d0, r) ) return "";
   size_t n = P.nx, m = P.out.size(); ++n_eval; if( n > 1 && m > 1 && n != m ) ++n_nontriv;
   std::ostringstream o; o.precision(17);
   std::string id = " n=" + std::to_string(n) + " m=" + std::to_string(m) + " " + P.str() + (opt ? " optimized" : "") + " x=" + vs(x) + " d=" + vs(d0) + " rec=" + vs(x0);
   auto bad = [&](const char* what, size_t e, double got, ld want) -> bool {
      if( close(got, want, r.sc, 1e-8) ) return false;
      o << what << ": element " << e << " is " << got << ", the partial derivative is " << (double)want << id; return true; };
   auto size = [&](const char* what, size_t got, size_t want) -> bool { if( got == want ) return false; o << what << ": size " << got << ", documented " << want << id; return true; };
   // the state left by earlier calls may be anything
   if( R.coin() ) { dv y = x0; for(auto& t : y) t += R.uni(-0.4, 0.4); if( ! wellposed(P, y, d0, true, opt) ) y = x0; f.Forward(0, y); for(auto& t : y) t = R.uni(-2, 2); f.Forward(1, y); if( R.coin() ) f.Forward(2, y); }
   int calls = 1 + R.below(3);
   for(int c = 0; c < calls; ++c) switch( R.below(8) ) {
   case 0: { dv j = f.Jacobian(x); if( size("Jacobian", j.size(), n * m) ) return o.str(); for(size_t i = 0; i < m; ++i) for(size_t k = 0; k < n; ++k) if( bad("Jacobian", i * n + k, j[i * n + k], r.J[i][k]) ) return o.str(); break; }
   case 1: { dv j(n * m); f.Forward(0, x); CppAD::JacobianFor(f, x, j); for(size_t i = 0; i < m; ++i) for(size_t k = 0; k < n; ++k) if( bad("JacobianFor", i * n + k, j[i * n + k], r.J[i][k]) ) return o.str(); break; }
   case 2: { dv j(n * m); f.Forward(0, x); CppAD::JacobianRev(f, x, j); for(size_t i = 0; i < m; ++i) for(size_t k = 0; k < n; ++k) if( bad("JacobianRev", i * n + k, j[i * n + k], r.J[i][k]) ) return o.str(); break; }
   case 3: { size_t l = R.below((int)m); dv h = f.Hessian(x, l); if( size("Hessian", h.size(), n * n) ) return o.str(); for(size_t j = 0; j < n; ++j) for(size_t k = 0; k < n; ++k) if( bad("Hessian", j * n + k, h[j * n + k], r.H[l][j][k]) ) { o << " l=" << l; return o.str(); } break; }
   case 4: { dv w(m); for(auto& t : w) t = R.below(3) == 0 ? 0.0 : R.uni(-1, 1); dv h = f.Hessian(x, w); if( size("Hessian", h.size(), n * n) ) return o.str(); for(size_t j = 0; j < n; ++j) for(size_t k = 0; k < n; ++k) { ld s = 0; for(size_t i = 0; i < m; ++i) s += w[i] * r.H[i][j][k]; if( bad("Hessian", j * n + k, h[j * n + k], s) ) { o << " w=" << vs(w); return o.str(); } } break; }
   case 5: { size_t j = R.below((int)n), i = R.below((int)m); dv d = f.ForOne(x, j); if( size("ForOne", d.size(), m) ) return o.str(); for(size_t k = 0; k < m; ++k) if( bad("ForOne", k, d[k], r.J[k][j]) ) { o << " j=" << j; return o.str(); }
      d = f.RevOne(x, i); if( size("RevOne", d.size(), n) ) return o.str(); for(size_t k = 0; k < n; ++k) if( bad("RevOne", k, d[k], r.J[i][k]) ) { o << " i=" << i; return o.str(); } break; }
   case 6: { size_t p = 1 + R.below(6); sv a(p), b(p); for(auto& t : a) t = R.below((int)n); for(auto& t : b) t = R.below((int)n); dv d = f.ForTwo(x, a, b); if( size("ForTwo", d.size(), m * p) ) return o.str();
      for(size_t i = 0; i < m; ++i) for(size_t l = 0; l < p; ++l) if( bad("ForTwo", i * p + l, d[i * p + l], r.H[i][a[l]][b[l]]) ) { o << " j=" << vs(a) << " k=" << vs(b); return o.str(); } break; }
   case 7: { size_t p = 1 + R.below(6); sv a(p), b(p); for(auto& t : a) t = R.below((int)m); for(auto& t : b) t = R.below((int)n); dv d = f.RevTwo(x, a, b); if( size("RevTwo", d.size(), n * p) ) return o.str();
      for(size_t k = 0; k < n; ++k) for(size_t l = 0; l < p; ++l) if( bad("RevTwo", k * p + l, d[k * p + l], r.H[a[l]][b[l]][k]) ) { o << " i=" << vs(a) << " j=" << vs(b); return o.str(); } break; }
   }
   if( sample_due() ) printf("SAMPLE\t%s\n", id.c_str());
   return "";
}
