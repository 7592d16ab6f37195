// Native replay of the contracts of sparsity patterns (mode pattern) and of sparse derivatives (mode values).
// Oracle: Taylor series over dual numbers, and values at other points for dependency.
# include "vecprog.hpp"
# include "main.hpp"
using orc::Jet; using orc::Dual; using CppAD::vectorBool;
typedef CppAD::vector<size_t> sv; typedef CppAD::vector<double> cv; typedef CppAD::vector<bool> bv;
typedef CppAD::sparse_rc<sv> rc; typedef CppAD::sparse_rcv<sv, cv> rcv;
typedef std::vector< std::vector<char> > Mat;
typedef std::vector< std::set<size_t> > VS;
static std::string bits(const Mat& M) { std::ostringstream o; for(auto& r : M) { o << "["; for(char c : r) o << int(c); o << "]"; } return o.str(); }
static Mat mat(size_t r, size_t c) { return Mat(r, std::vector<char>(c, 0)); }
static Mat full(const rc& p) { Mat M = mat(p.nr(), p.nc()); for(size_t k = 0; k < p.nnz(); ++k) M[p.row()[k]][p.col()[k]] = 1; return M; }
static Mat tr(const Mat& A, size_t nr, size_t nc) { Mat B = mat(nc, nr); for(size_t i = 0; i < nr; ++i) for(size_t j = 0; j < nc; ++j) B[j][i] = A[i][j]; return B; }
static Mat mul(const Mat& A, const Mat& B, size_t nc) { Mat C = mat(A.size(), nc); for(size_t i = 0; i < A.size(); ++i) for(size_t k = 0; k < B.size(); ++k) if( A[i][k] ) for(size_t j = 0; j < nc; ++j) if( B[k][j] ) C[i][j] = 1; return C; }
static rc pat(const Mat& A, size_t nr, size_t nc, Rng& R) { std::vector< std::pair<size_t,size_t> > e; for(size_t i = 0; i < nr; ++i) for(size_t j = 0; j < nc; ++j) if( A[i][j] ) e.push_back({i, j});
   for(size_t k = e.size(); k > 1; --k) std::swap(e[k - 1], e[R.below(k)]);
   rc p(nr, nc, e.size()); for(size_t k = 0; k < e.size(); ++k) p.set(k, e[k].first, e[k].second); return p; }
static bool missing(const Mat& want, const Mat& got) { for(size_t i = 0; i < want.size(); ++i) for(size_t j = 0; j < want[i].size(); ++j) if( want[i][j] && ! got[i][j] ) return true; return false; }
static VS vset(const Mat& A) { VS s(A.size()); for(size_t i = 0; i < A.size(); ++i) for(size_t j = 0; j < A[i].size(); ++j) if( A[i][j] ) s[i].insert(j); return s; }
static Mat uset(const VS& s, size_t nc) { Mat A = mat(s.size(), nc); for(size_t i = 0; i < s.size(); ++i) for(size_t j : s[i]) A[i][j] = 1; return A; }
static std::vector<bool> vbool(const Mat& A, size_t nc) { std::vector<bool> b; for(auto& r : A) for(size_t j = 0; j < nc; ++j) b.push_back(r[j]); return b; }
static Mat ubool(const std::vector<bool>& b, size_t nr, size_t nc) { Mat A = mat(nr, nc); for(size_t i = 0; i < nr; ++i) for(size_t j = 0; j < nc; ++j) A[i][j] = b[i * nc + j]; return A; }
// first and second derivatives of the outputs at x
static bool derivs(const Prog& P, const dv& x, const dv& d, std::vector< std::vector<ld> >& J, std::vector< std::vector< std::vector<ld> > >& H, bool& kink) {
   size_t n = P.nx, m = P.out.size(); orc::order = 1; orc::ndir = n; J.assign(m, std::vector<ld>(n)); H.assign(m, std::vector< std::vector<ld> >(n, std::vector<ld>(n)));
   for(size_t k = 0; k < n; ++k) {
      std::vector< Jet<Dual> > ax(n), ad(P.nd), v;
      for(size_t i = 0; i < n; ++i) { ax[i].c[0] = Dual(x[i]); ax[i].c[0].g[i] = 1; ax[i].c[1] = Dual(i == k ? 1.0 : 0.0); }
      for(int i = 0; i < P.nd; ++i) ad[i] = Jet<Dual>(d[i]);
      EvalInfo e; e.force = &P.cmp; eval(P, ax, ad, v, e);
      for(auto& j : v) for(auto& c : j.c) { if( ! (std::fabs(c.v) < 1e6) ) return false; for(size_t i = 0; i < n; ++i) if( ! (std::fabs(c.g[i]) < 1e6) ) return false; }
      for(size_t i = 0; i < m; ++i) { J[i][k] = v[P.out[i]].c[1].v; for(size_t j = 0; j < n; ++j) H[i][k][j] = v[P.out[i]].c[1].g[j]; }
   }
   return true;
}
static Mat randpat(Rng& R, size_t nr, size_t nc, int dens) { Mat A = mat(nr, nc); for(auto& r : A) for(auto& c : r) c = R.below(4) < dens; return A; }
// fixed case: a VecAD store and load between an independent and a dependent variable
static std::string fixed_subgraph(bool values) {
   CppAD::vector< CppAD::AD<double> > ax(2), ay(1); ax[0] = 1; ax[1] = 2; CppAD::Independent(ax); CppAD::VecAD<double> v(2); v[CppAD::AD<double>(0)] = ax[0]; v[CppAD::AD<double>(1)] = 1.0; ay[0] = v[CppAD::AD<double>(0)] * ax[1];
   CppAD::ADFun<double> f(ax, ay); bv d(2), r(1); d[0] = d[1] = r[0] = true; ++n_eval;
   if( ! values ) { rc p; f.subgraph_sparsity(d, r, false, p); Mat S = full(p); if( ! S[0][0] || ! S[0][1] ) return "subgraph_sparsity of y = v[0] * x[1] with VecAD store v[0] = x[0]: pattern " + bits(S); }
   else { rcv s; cv x(2); x[0] = 3; x[1] = 4; f.subgraph_jac_rev(d, r, x, s); double J[2] = {0, 0}; for(size_t k = 0; k < s.nnz(); ++k) J[s.col()[k]] = s.val()[k]; if( J[0] != 4 || J[1] != 3 ) { std::ostringstream o; o << "subgraph_jac_rev of y = v[0] * x[1] with VecAD store v[0] = x[0]: at x = (3, 4) the Jacobian is (" << J[0] << "," << J[1] << ")"; return o.str(); } }
   return "";
}
# define BAD(WHAT, WANT, GOT) { o << WHAT << ": pattern " << bits(GOT) << " does not contain " << bits(WANT) << "; " << id; return o.str(); }
// programs with several recorded vectors: Jacobian and Hessian patterns of each output contain what the oracle finds at several points
static std::string vectors(unsigned long long seed) {
   Rng R(seed); VProg P = vgen(R); dv x0, d0; for(int i = 0; i < P.nx; ++i) x0.push_back(R.uni(-1.5, 1.5)); for(int i = 0; i < P.nd; ++i) d0.push_back(R.uni(-1.5, 1.5));
   std::vector<double> s0; if( ! veval<double>(P, x0, d0, s0) ) return ""; for(double t : s0) if( ! (std::fabs(t) < 50) ) return "";
   earlier(P); std::vector<AD1> ax(x0.begin(), x0.end()), ad(d0.begin(), d0.end()), as, ay; CppAD::Independent(ax, 0, true, ad); veval(P, ax, ad, as); for(int i : P.out) ay.push_back(as[i]);
   CppAD::ADFun<double> f; f.Dependent(ax, ay); f.check_for_nan(false); bool opt = R.below(4) == 0; if( opt ) f.optimize();
   size_t n = P.nx, m = P.out.size(); std::string id = P.str() + (opt ? " optimized" : "") + " d=" + vs(d0) + " rec=" + vs(x0); std::ostringstream o; o.precision(17);
   Mat nj = mat(m, n), dep = mat(m, n); std::vector<Mat> nh(m, mat(n, n)); bool any = false;
   for(int t = 0; t < 8; ++t) {
      dv x = x0; if( t ) for(auto& v : x) v += R.uni(-1.5, 1.5);
      std::vector<double> s; if( ! veval<double>(P, x, d0, s) ) continue; bool ok = true; for(double u : s) if( ! (std::fabs(u) < 50) ) ok = false; if( ! ok ) continue; any = true;
      orc::order = 1; orc::ndir = n;
      for(size_t k = 0; k < n; ++k) {
         std::vector< Jet<Dual> > jx(n), jd(P.nd), v; for(size_t i = 0; i < n; ++i) { jx[i].c[0] = Dual(x[i]); jx[i].c[0].g[i] = 1; jx[i].c[1] = Dual(i == k ? 1.0 : 0.0); } for(int i = 0; i < P.nd; ++i) jd[i] = Jet<Dual>(d0[i]);
         veval(P, jx, jd, v);
         for(size_t i = 0; i < m; ++i) { if( std::fabs(v[P.out[i]].c[1].v) > 1e-6 ) nj[i][k] = 1; for(size_t j = 0; j < n; ++j) if( std::fabs(v[P.out[i]].c[1].g[j]) > 1e-6 ) nh[i][k][j] = 1; }
      }
      for(size_t j = 0; j < n; ++j) { dv z = x; z[j] += R.uni(-1, 1); std::vector<double> u; if( ! veval<double>(P, z, d0, u) ) continue; for(size_t i = 0; i < m; ++i) if( std::fabs(u[P.out[i]] - s[P.out[i]]) > 1e-6 ) dep[i][j] = 1; }
   }
   if( ! any ) return ""; ++n_eval; for(auto& h : nh) for(auto& r : h) for(char c : r) if( c ) { ++n_nontriv; goto done; }
done:
   rc I(n, n, n), E(m, m, m), out; for(size_t j = 0; j < n; ++j) I.set(j, j, j); for(size_t i = 0; i < m; ++i) E.set(i, i, i);
   for(int dp = 0; dp < 2; ++dp) { Mat g[2], h[2]; for(int b = 0; b < 2; ++b) {
      f.for_jac_sparsity(I, false, dp, b, out); g[b] = full(out); if( missing(nj, g[b]) ) BAD("for_jac_sparsity dependency=" << dp << " bool=" << b, nj, g[b]) if( dp && missing(dep, g[b]) ) BAD("for_jac_sparsity dependency bool=" << b, dep, g[b])
      f.rev_jac_sparsity(E, false, dp, b, out); h[b] = full(out); if( missing(nj, h[b]) ) BAD("rev_jac_sparsity dependency=" << dp << " bool=" << b, nj, h[b]) if( dp && missing(dep, h[b]) ) BAD("rev_jac_sparsity dependency bool=" << b, dep, h[b]) }
      if( g[0] != g[1] || h[0] != h[1] ) { o << "sets and bools give different Jacobian patterns; " << id; return o.str(); } }
   bv sd(n), sr(m); for(size_t j = 0; j < n; ++j) sd[j] = true;
   for(size_t i = 0; i <= m; ++i) { // one output, or a random selection
      for(size_t k = 0; k < m; ++k) sr[k] = i < m ? k == i : R.coin(); Mat w = mat(n, n); for(size_t k = 0; k < m; ++k) if( sr[k] ) for(size_t a = 0; a < n; ++a) for(size_t b = 0; b < n; ++b) if( nh[k][a][b] ) w[a][b] = 1;
      Mat g[2], h[2]; for(int b = 0; b < 2; ++b) { f.for_hes_sparsity(sd, sr, b, out); g[b] = full(out); if( missing(w, g[b]) ) BAD("for_hes_sparsity bool=" << b << " select_range=" << sr, w, g[b])
         rc dum; f.for_jac_sparsity(I, false, false, b, dum); f.rev_hes_sparsity(sr, false, b, out); h[b] = full(out); if( missing(w, h[b]) ) BAD("rev_hes_sparsity bool=" << b << " select_range=" << sr, w, h[b]) }
      if( g[0] != g[1] || h[0] != h[1] ) { o << "sets and bools give different Hessian patterns; " << id; return o.str(); } }
   if( sample_due() ) sample(id); return "";
}
static std::string one(const char* mode, unsigned long long seed) {
   if( std::string(mode) == "pattern" && seed % 3 == 0 ) return vectors(seed);
   if( std::string(mode) == "vecad_subgraph" ) return fixed_subgraph(false); if( std::string(mode) == "vecad_subgraph_values" ) return fixed_subgraph(true);
   Rng R(seed); GenOpt G;
   G.nx = 1 + R.below(4); if( R.below(8) == 0 ) G.nx = 5 + R.below(5); G.nd = R.below(2); G.len = 1 + R.below(9); if( R.below(6) == 0 ) G.len += 10; G.nout = 1 + R.below(4); G.cmp = R.below(4) == 0;
   dv x0, d0; for(int i = 0; i < G.nx; ++i) x0.push_back(gen_x(R)); for(int i = 0; i < G.nd; ++i) d0.push_back(gen_x(R));
   Prog P = generate(R, G, x0, d0);
   CppAD::ADFun<double> f; bool opt = R.below(4) == 0;
   if( P.ins.empty() || ! wellposed(P, x0, d0, true, opt) ) return "";
   record(P, x0, d0, f, opt);
   size_t n = P.nx, m = P.out.size(); std::string ms(mode); std::ostringstream o; o.precision(17);
   bool vec = false; for(auto& I : P.ins) if( I.op == VECAD ) vec = true;
   std::string id = P.str() + (opt ? " optimized" : "") + " d=" + vs(d0) + " rec=" + vs(x0);
   // points
   std::vector<dv> pts; pts.push_back(x0);
   for(int t = 0; t < 6; ++t) { dv x = x0; for(auto& v : x) v += R.uni(-0.6, 0.6) * (t < 3 ? 1 : 3); if( wellposed(P, x, d0, true, opt) ) pts.push_back(x); }
   std::vector< std::vector<ld> > J; std::vector< std::vector< std::vector<ld> > > H; bool kink;
   if( ms == "pattern" ) {
      Mat nj = mat(m, n), dep = mat(m, n); std::vector<Mat> nh(m, mat(n, n)); bool any = false;
      for(auto& x : pts) { if( ! derivs(P, x, d0, J, H, kink) ) continue; any = true;
         for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) { if( std::fabs(J[i][j]) > 1e-7 ) nj[i][j] = 1; for(size_t k = 0; k < n; ++k) if( std::fabs(H[i][j][k]) > 1e-7 ) nh[i][j][k] = 1; } }
      if( ! any ) return "";
      for(auto& x : pts) for(size_t j = 0; j < n; ++j) { dv z = x; z[j] += R.coin() ? 0.5 : -0.7; if( ! wellposed(P, z, d0, false, opt) ) continue;
         std::vector<double> a, b; EvalInfo e1, e2; e1.force = e2.force = &P.cmp; eval<double>(P, x, d0, a, e1); eval<double>(P, z, d0, b, e2);
         for(size_t i = 0; i < m; ++i) if( std::fabs(a[P.out[i]] - b[P.out[i]]) > 1e-7 ) dep[i][j] = 1; }
      ++n_eval; for(auto& r : nh) for(auto& q : r) for(char c : q) if( c ) { ++n_nontriv; goto counted; }
counted:
      int q = 1 + R.below(4); bool ident = R.below(3) == 0; if( ident ) q = n;
      Mat RI = randpat(R, n, q, 2); if( ident ) { RI = mat(n, n); for(size_t i = 0; i < n; ++i) RI[i][i] = 1; }
      bool idr = R.below(3) == 0; size_t s = idr ? m : 1 + R.below(4); Mat SI = randpat(R, s, m, 2); if( idr ) { SI = mat(m, m); for(size_t i = 0; i < m; ++i) SI[i][i] = 1; }
      Mat jr = mul(nj, RI, q), dr = mul(dep, RI, q), sj = mul(SI, nj, n), sd = mul(SI, dep, n);
      for(int t = 0; t < 2; ++t) for(int dp = 0; dp < 2; ++dp) {
         Mat g[2], h[2];
         for(int b = 0; b < 2; ++b) {
            rc in = t ? pat(tr(RI, n, q), q, n, R) : pat(RI, n, q, R), out; f.for_jac_sparsity(in, t, dp, b, out);
            if( out.nr() != (t ? q : m) || out.nc() != (t ? m : q) ) { o << "for_jac_sparsity: size of the pattern; " << id; return o.str(); }
            g[b] = full(out); if( t ) g[b] = tr(g[b], q, m);
            if( missing(jr, g[b]) ) BAD("for_jac_sparsity transpose=" << t << " dependency=" << dp << " bool=" << b << " pattern_in=" << bits(RI), jr, g[b])
            if( dp && missing(dr, g[b]) ) BAD("for_jac_sparsity dependency transpose=" << t << " bool=" << b << " pattern_in=" << bits(RI), dr, g[b])
            rc in2 = t ? pat(tr(SI, s, m), m, s, R) : pat(SI, s, m, R); f.rev_jac_sparsity(in2, t, dp, b, out);
            if( out.nr() != (t ? n : s) || out.nc() != (t ? s : n) ) { o << "rev_jac_sparsity: size of the pattern; " << id; return o.str(); }
            h[b] = full(out); if( t ) h[b] = tr(h[b], n, s);
            if( missing(sj, h[b]) ) BAD("rev_jac_sparsity transpose=" << t << " dependency=" << dp << " bool=" << b << " pattern_in=" << bits(SI), sj, h[b])
            if( dp && missing(sd, h[b]) ) BAD("rev_jac_sparsity dependency transpose=" << t << " bool=" << b << " pattern_in=" << bits(SI), sd, h[b])
         }
         if( g[0] != g[1] ) { o << "for_jac_sparsity: sets " << bits(g[0]) << " and bools " << bits(g[1]) << " differ; " << id; return o.str(); }
         if( h[0] != h[1] ) { o << "rev_jac_sparsity: sets " << bits(h[0]) << " and bools " << bits(h[1]) << " differ; " << id; return o.str(); }
         // old interface
         {  VS r = vset(t ? tr(RI, n, q) : RI); VS a = f.ForSparseJac(q, r, t, dp); Mat A = t ? tr(uset(a, m), q, m) : uset(a, q);
            std::vector<bool> rb = vbool(t ? tr(RI, n, q) : RI, t ? n : q), ab = f.ForSparseJac(q, rb, t, dp); Mat B = t ? tr(ubool(ab, q, m), q, m) : ubool(ab, m, q);
            if( missing(jr, A) ) BAD("ForSparseJac set transpose=" << t << " dependency=" << dp, jr, A)
            if( dp && missing(dr, A) ) BAD("ForSparseJac set dependency transpose=" << t, dr, A)
            if( A != B ) { o << "ForSparseJac: sets " << bits(A) << " and bools " << bits(B) << " differ; " << id; return o.str(); }
            VS r2 = vset(t ? tr(SI, s, m) : SI); VS c = f.RevSparseJac(s, r2, t, dp); Mat C = t ? tr(uset(c, s), n, s) : uset(c, n);
            std::vector<bool> r2b = vbool(t ? tr(SI, s, m) : SI, t ? s : m), cb = f.RevSparseJac(s, r2b, t, dp); Mat D = t ? tr(ubool(cb, n, s), n, s) : ubool(cb, s, n);
            if( missing(sj, C) ) BAD("RevSparseJac set transpose=" << t << " dependency=" << dp, sj, C)
            if( dp && missing(sd, C) ) BAD("RevSparseJac set dependency transpose=" << t, sd, C)
            if( C != D ) { o << "RevSparseJac: sets " << bits(C) << " and bools " << bits(D) << " differ; " << id; return o.str(); } }
      }
      // Hessians
      bv sdom(n), sran(m); for(size_t j = 0; j < n; ++j) sdom[j] = R.below(4) != 0; for(size_t i = 0; i < m; ++i) sran[i] = R.below(3) != 0;
      Mat hw = mat(n, n), hd = mat(n, n); for(size_t i = 0; i < m; ++i) if( sran[i] ) for(size_t j = 0; j < n; ++j) for(size_t k = 0; k < n; ++k) if( nh[i][j][k] ) { hw[j][k] = 1; if( sdom[j] && sdom[k] ) hd[j][k] = 1; }
      Mat g[2], h[2];
      for(int b = 0; b < 2; ++b) {
         rc out; f.for_hes_sparsity(sdom, sran, b, out); g[b] = full(out);
         if( out.nr() != n || out.nc() != n ) { o << "for_hes_sparsity: size of the pattern; " << id; return o.str(); }
         if( missing(hd, g[b]) ) BAD("for_hes_sparsity bool=" << b << " select_domain=" << sdom << " select_range=" << sran, hd, g[b])
         // reverse: H(x) R
         Mat hr = mul(hw, RI, q); rc dum; f.for_jac_sparsity(pat(RI, n, q, R), false, false, b, dum); bool t = R.coin(); f.rev_hes_sparsity(sran, t, b, out); h[b] = full(out); if( t ) h[b] = tr(h[b], q, n);
         if( missing(hr, h[b]) ) BAD("rev_hes_sparsity bool=" << b << " select_range=" << sran << " pattern_in=" << bits(RI), hr, h[b])
      }
      if( g[0] != g[1] ) { o << "for_hes_sparsity: sets " << bits(g[0]) << " and bools " << bits(g[1]) << " differ; " << id; return o.str(); }
      if( h[0] != h[1] ) { o << "rev_hes_sparsity: sets " << bits(h[0]) << " and bools " << bits(h[1]) << " differ; " << id; return o.str(); }
      {  VS r = vset(RI); bool t = R.coin(); f.ForSparseJac(q, r); VS sr(1); for(size_t i = 0; i < m; ++i) if( sran[i] ) sr[0].insert(i); VS a = f.RevSparseHes(q, sr, t); Mat A = t ? tr(uset(a, q), n, q) : uset(a, n);
         Mat hr = tr(mul(hw, RI, q), n, q); Mat got = A;
         if( missing(hr, got) ) BAD("RevSparseHes set transpose=" << t << " select_range=" << sran, hr, got)
         std::vector<bool> rb = vbool(RI, q), srb(m); for(size_t i = 0; i < m; ++i) srb[i] = sran[i]; f.ForSparseJac(q, rb); std::vector<bool> c = f.RevSparseHes(q, srb, t); Mat C = t ? tr(ubool(c, n, q), n, q) : ubool(c, q, n);
         if( C != got ) { o << "RevSparseHes: sets " << bits(got) << " and bools " << bits(C) << " differ; " << id; return o.str(); }
         VS dd(1); for(size_t j = 0; j < n; ++j) if( sdom[j] ) dd[0].insert(j); VS e = f.ForSparseHes(dd, sr); Mat E = uset(e, n);
         if( missing(hd, E) ) BAD("ForSparseHes set select_domain=" << sdom << " select_range=" << sran, hd, E)
         std::vector<bool> ddb(n); for(size_t j = 0; j < n; ++j) ddb[j] = sdom[j]; std::vector<bool> eb = f.ForSparseHes(ddb, srb); if( ubool(eb, n, n) != E ) { o << "ForSparseHes: sets " << bits(E) << " and bools " << bits(ubool(eb, n, n)) << " differ; " << id; return o.str(); }
      }
      if( ! vec ) {
         rc out; bool t = R.coin(); f.subgraph_sparsity(sdom, sran, t, out); Mat S = full(out); if( t ) S = tr(S, n, m);
         Mat w = mat(m, n); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( sdom[j] && sran[i] && (nj[i][j] || dep[i][j]) ) w[i][j] = 1;
         if( missing(w, S) ) BAD("subgraph_sparsity transpose=" << t << " select_domain=" << sdom << " select_range=" << sran, w, S)
      }
      if( sample_due() ) { sample(id); } return "";
   }
   // values of sparse derivatives
   dv x = pts.back(); if( ! derivs(P, x, d0, J, H, kink) ) return ""; ++n_eval;
   cv cx(n); for(size_t j = 0; j < n; ++j) cx[j] = x[j];
   ld sc = 1; for(auto& r : J) for(auto v : r) sc = std::max(sc, std::fabs(v)); for(auto& a : H) for(auto& r : a) for(auto v : r) sc = std::max(sc, std::fabs(v));
   if( sc > 1e4 ) return "";
   rc jin(n, n, n), jp; for(size_t k = 0; k < n; ++k) jin.set(k, k, k); f.for_jac_sparsity(jin, false, false, R.coin(), jp);
   Mat JP = full(jp); if( R.coin() ) for(auto& r : JP) for(auto& c : r) if( R.below(4) == 0 ) c = 1;       // a pattern that contains it
   jp = pat(JP, m, n, R);
   Mat SU = mat(m, n); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) SU[i][j] = JP[i][j] && R.below(4) != 0;
   rcv sub(pat(SU, m, n, R)); if( sub.nnz() > 2 ) ++n_nontriv;
   auto check = [&](const char* what, const rcv& s, bool hes, const std::vector< std::vector<ld> >& W) { for(size_t k = 0; k < s.nnz(); ++k) { ld want = W[s.row()[k]][s.col()[k]]; if( ! close(s.val()[k], want, sc, 1e-9) ) { o << what << ": entry (" << s.row()[k] << "," << s.col()[k] << ") is " << s.val()[k] << ", the derivative is " << (double)want << "; pattern=" << bits(JP) << " subset=" << bits(full(s.pat())) << " x=" << vs(x) << " " << id; return false; } } return true; };
   f.clear_subgraph();
   { CppAD::sparse_jac_work w; int g = 1 + R.below(4); rcv s = sub; for(int t = 0; t < 2; ++t) { for(size_t k = 0; k < s.nnz(); ++k) s.set(k, 99); f.sparse_jac_for(g, cx, s, jp, "cppad", w); if( ! check("sparse_jac_for", s, false, J) ) return o.str(); } }
   { CppAD::sparse_jac_work w; rcv s = sub; for(int t = 0; t < 2; ++t) { for(size_t k = 0; k < s.nnz(); ++k) s.set(k, 99); f.sparse_jac_rev(cx, s, jp, "cppad", w); if( ! check("sparse_jac_rev", s, false, J) ) return o.str(); } }
   if( ! vec ) {
      rcv s = sub; f.subgraph_jac_rev(cx, s); if( ! check("subgraph_jac_rev subset", s, false, J) ) return o.str();
      bv a(n), b(m); for(size_t j = 0; j < n; ++j) a[j] = R.below(4) != 0; for(size_t i = 0; i < m; ++i) b[i] = R.below(4) != 0; rcv mo; f.subgraph_jac_rev(a, b, cx, mo); if( ! check("subgraph_jac_rev", mo, false, J) ) return o.str();
      Mat S = full(mo.pat()); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( a[j] && b[i] && std::fabs(J[i][j]) > 1e-7 && ! S[i][j] ) { o << "subgraph_jac_rev: entry (" << i << "," << j << ") is missing; " << id; return o.str(); }
      f.clear_subgraph();
   }
   {  // old interface
      VS ps = vset(JP); std::vector<bool> pb = vbool(JP, n); sv row = sub.row(), col = sub.col(); size_t K = row.size(); cv jac(K);
      auto cmp = [&](const char* what) { for(size_t k = 0; k < K; ++k) if( ! close(jac[k], J[row[k]][col[k]], sc, 1e-9) ) { o << what << ": entry (" << row[k] << "," << col[k] << ") is " << jac[k] << ", the derivative is " << (double)J[row[k]][col[k]] << "; pattern=" << bits(JP) << " x=" << vs(x) << " " << id; return false; } return true; };
      CppAD::sparse_jacobian_work w1, w2; f.SparseJacobianForward(cx, ps, row, col, jac, w1); if( ! cmp("SparseJacobianForward set") ) return o.str(); f.SparseJacobianForward(cx, ps, row, col, jac, w1); if( ! cmp("SparseJacobianForward set again") ) return o.str();
      f.SparseJacobianReverse(cx, pb, row, col, jac, w2); if( ! cmp("SparseJacobianReverse bool") ) return o.str();
      CppAD::sparse_jacobian_work w3; f.SparseJacobianReverse(cx, ps, row, col, jac, w3); if( ! cmp("SparseJacobianReverse set") ) return o.str();
      cv all = R.coin() ? f.SparseJacobian(cx) : R.coin() ? f.SparseJacobian(cx, ps) : f.SparseJacobian(cx, pb); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( ! close(all[i * n + j], J[i][j], sc, 1e-9) ) { o << "SparseJacobian: entry (" << i << "," << j << ") is " << all[i * n + j] << ", the derivative is " << (double)J[i][j] << "; " << id; return o.str(); }
   }
   // Hessian of a weighted sum
   cv w(m); bv sd(n), sr(m); for(size_t j = 0; j < n; ++j) sd[j] = true; for(size_t i = 0; i < m; ++i) { w[i] = R.below(4) ? R.uni(-1, 1) : 0; sr[i] = true; }
   std::vector< std::vector<ld> > W(n, std::vector<ld>(n, 0)); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) for(size_t k = 0; k < n; ++k) W[j][k] += w[i] * H[i][j][k];
   rc hp; if( R.coin() ) f.for_hes_sparsity(sd, sr, R.coin(), hp); else { bool b = R.coin(); rc dum; f.for_jac_sparsity(jin, false, false, b, dum); f.rev_hes_sparsity(sr, false, b, hp); }
   Mat HP = full(hp); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if( HP[i][j] || (R.below(12) == 0) ) HP[i][j] = HP[j][i] = 1;
   hp = pat(HP, n, n, R); Mat HS = mat(n, n); int kind = R.below(3); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) HS[i][j] = HP[i][j] && (kind == 0 ? j <= i : kind == 1 ? R.below(3) != 0 : true);
   rcv hs(pat(HS, n, n, R)); JP = HP;
   for(int t = 0; t < 2; ++t) { CppAD::sparse_hes_work wk; rcv s = hs; for(int u = 0; u < 2; ++u) { f.sparse_hes(cx, w, s, hp, t ? "cppad.general" : "cppad.symmetric", wk); if( ! check(t ? "sparse_hes cppad.general" : "sparse_hes cppad.symmetric", s, true, W) ) return o.str(); } }
   {  VS ps = vset(HP); std::vector<bool> pb = vbool(HP, n); sv row = hs.row(), col = hs.col(); size_t K = row.size(); cv hes(K);
      for(int t = 0; t < 2; ++t) { CppAD::sparse_hessian_work wk; if( R.coin() ) wk.color_method = "cppad.general"; if( t ) f.SparseHessian(cx, w, pb, row, col, hes, wk); else f.SparseHessian(cx, w, ps, row, col, hes, wk);
         for(size_t k = 0; k < K; ++k) if( ! close(hes[k], W[row[k]][col[k]], sc, 1e-9) ) { o << "SparseHessian " << (t ? "bool" : "set") << ": entry (" << row[k] << "," << col[k] << ") is " << hes[k] << ", the derivative is " << (double)W[row[k]][col[k]] << "; pattern=" << bits(HP) << " x=" << vs(x) << " " << id; return o.str(); } }
      cv all = R.coin() ? f.SparseHessian(cx, w) : R.coin() ? f.SparseHessian(cx, w, ps) : f.SparseHessian(cx, w, pb); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if( ! close(all[i * n + j], W[i][j], sc, 1e-9) ) { o << "SparseHessian: entry (" << i << "," << j << ") is " << all[i * n + j] << ", the derivative is " << (double)W[i][j] << "; " << id; return o.str(); } }
   if( sample_due() ) sample(id); return "";
}
