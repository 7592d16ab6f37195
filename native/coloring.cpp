// Native replay of the coloring contracts on random patterns, and of sparse derivatives of functions with a given pattern.
// oracle: coefficients of the functions (quadratic), computed here
# include "prog.hpp"
# include "main.hpp"
using CppAD::AD;
typedef CppAD::vector<size_t> sv; typedef CppAD::vector<double> cv;
typedef CppAD::sparse_rc<sv> rc; typedef CppAD::sparse_rcv<sv, cv> rcv; typedef std::vector< std::vector<char> > Mat;
static std::string bits(const Mat& M) { std::ostringstream o; for(auto& r : M) { o << "["; for(char c : r) o << int(c); o << "]"; } return o.str(); }
template <class V> static std::string str(const V& v) { std::ostringstream o; o << "("; for(size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }
static Mat rnd(Rng& R, size_t m, size_t n, int kind) {
   Mat A(m, std::vector<char>(n, 0)); int den = 2 + R.below(6);
   for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) {
      if( kind == 0 ) A[i][j] = R.below(den) == 0; else if( kind == 1 ) A[i][j] = (i <= j + 1 && j <= i + 1) || R.below(20) == 0;
      else if( kind == 2 ) A[i][j] = i == 0 || j == 0 || i == j; else A[i][j] = i + 1 >= m || j + 1 >= n || i == j || R.below(12) == 0; }
   return A;
}
static rc pat(const Mat& A, size_t m, size_t n, Rng& R) { std::vector< std::pair<size_t,size_t> > e; for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( A[i][j] ) e.push_back({i, j});
   for(size_t k = e.size(); k > 1; --k) std::swap(e[k - 1], e[R.below(k)]);
   rc p(m, n, e.size()); for(size_t k = 0; k < e.size(); ++k) p.set(k, e[k].first, e[k].second); return p; }
template <class SV> static void fill(SV& s, const Mat& A, size_t m, size_t n) { s.resize(m, n); for(size_t i = 0; i < m; ++i) { for(size_t j = 0; j < n; ++j) if( A[i][j] ) s.post_element(i, j); s.process_post(i); } }
template <class SV> static std::string general(const Mat& A, size_t m, size_t n, const rc& sub) {
   SV s; fill(s, A, m, n); sv color(m); std::ostringstream o; CppAD::local::color_general_cppad(s, sub.row(), sub.col(), color);
   for(size_t k = 0; k < sub.nnz(); ++k) { size_t i = sub.row()[k], j = sub.col()[k];
      if( color[i] >= m ) { o << "color_general: row " << i << " has no color " << str(color); return o.str(); }
      for(size_t r = 0; r < m; ++r) if( r != i && color[r] == color[i] && A[r][j] ) { o << "color_general: rows " << i << " and " << r << " have the same color but both are non-zero in column " << j << ", colors " << str(color); return o.str(); } }
   return "";
}
template <class SV> static std::string symmetric(const Mat& A, size_t n, const rc& sub) {
   SV s; fill(s, A, n, n); sv color(n), row(sub.row()), col(sub.col()); std::ostringstream o; CppAD::local::color_symmetric_cppad(s, row, col, color);
   for(size_t k = 0; k < sub.nnz(); ++k) { size_t i = row[k], j = col[k]; size_t a = sub.row()[k], b = sub.col()[k];
      if( ! ((i == a && j == b) || (i == b && j == a)) ) { o << "color_symmetric: entry " << k << " (" << a << "," << b << ") becomes (" << i << "," << j << ")"; return o.str(); }
      if( color[i] >= n ) { o << "color_symmetric: row " << i << " has no color " << str(color); return o.str(); }
      for(size_t r = 0; r < n; ++r) if( r != i && color[r] == color[i] && A[r][j] ) { o << "color_symmetric: rows " << i << " and " << r << " have the same color but both are non-zero in column " << j << ", colors " << str(color); return o.str(); } }
   return "";
}
static std::string one(const char* mode, unsigned long long seed) {
   Rng R(seed); size_t m = 1 + R.below(9), n = 1 + R.below(9); if( R.below(10) == 0 ) m += 60; if( R.below(10) == 0 ) n += 60; std::ostringstream o; o.precision(17);
   Mat A = rnd(R, m, n, R.below(4)); Mat S = A; for(auto& r : S) for(auto& c : r) if( R.below(5) == 0 ) c = 0; if( R.below(3) == 0 ) S = A;
   rc sub = pat(S, m, n, R); std::string id = "pattern=" + bits(A) + " requested=" + bits(S), e; ++n_eval; if( sub.nnz() > 2 ) ++n_nontriv;
   e = general<CppAD::local::sparse::list_setvec>(A, m, n, sub); if( ! e.empty() ) return e + "; " + id;
   e = general<CppAD::local::sparse::pack_setvec>(A, m, n, sub); if( ! e.empty() ) return e + "; " + id;
   Mat B = rnd(R, n, n, R.below(4)); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < i; ++j) B[i][j] = B[j][i]; Mat T = B; int kind = R.below(3);
   for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if( T[i][j] && ! (kind == 0 ? j <= i : kind == 1 ? R.below(3) != 0 : true) ) T[i][j] = 0;
   rc hs = pat(T, n, n, R); std::string hid = "pattern=" + bits(B) + " requested=" + bits(T);
   e = symmetric<CppAD::local::sparse::list_setvec>(B, n, hs); if( ! e.empty() ) return e + "; " + hid;
   e = symmetric<CppAD::local::sparse::pack_setvec>(B, n, hs); if( ! e.empty() ) return e + "; " + hid;
   if( m > 20 || n > 20 ) return "";
   // y_i = sum_j a_ij x_j + b_ij x_j^2 / 2 on the pattern; z = 1/2 x^T C x with weight w
   std::vector< std::vector<double> > a(m, std::vector<double>(n)), b = a, c(n, std::vector<double>(n));
   for(auto& r : a) for(auto& v : r) v = 1 + R.below(50); for(auto& r : b) for(auto& v : r) v = R.below(5); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) c[i][j] = c[j][i] = B[i][j] ? 1 + R.below(50) : 0;
   CppAD::vector< AD<double> > ax(n), ay(m), az(1); cv x(n); for(size_t j = 0; j < n; ++j) { x[j] = int(R.below(7)) - 3; ax[j] = 0; }
   CppAD::ADFun<double> f, h; CppAD::Independent(ax); for(size_t i = 0; i < m; ++i) { ay[i] = 0; for(size_t j = 0; j < n; ++j) if( A[i][j] ) ay[i] += a[i][j] * ax[j] + (b[i][j] * 0.5) * ax[j] * ax[j]; } f.Dependent(ax, ay); f.check_for_nan(false);
   for(size_t j = 0; j < n; ++j) ax[j] = 0; CppAD::Independent(ax); az[0] = 0; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if( B[i][j] ) az[0] += (c[i][j] * 0.5) * ax[i] * ax[j]; h.Dependent(ax, az);
   auto J = [&](size_t i, size_t j) { return A[i][j] ? a[i][j] + b[i][j] * x[j] : 0.0; };
   rc P = pat(A, m, n, R); rcv s(sub); cv w(1); w[0] = 1 + R.below(3); std::string what;
   auto ck = [&](const char* what, size_t i, size_t j, double got, double want, const std::string& d) { if( got == want ) return true; o << what << ": entry (" << i << "," << j << ") is " << got << ", the derivative is " << want << " at x=" << str(x) << "; " << d; return false; };
   CppAD::sparse_jac_work w1, w2; int g = 1 + R.below(6);
   for(int t = 0; t < 2; ++t) { for(size_t j = 0; j < n; ++j) x[j] = int(R.below(7)) - 3;
      for(int u = 0; u < 3; ++u) { for(size_t k = 0; k < s.nnz(); ++k) s.set(k, 7.5); const char* nm = u == 0 ? "sparse_jac_for" : u == 1 ? "sparse_jac_rev" : "subgraph_jac_rev";
         if( u == 0 ) f.sparse_jac_for(g, x, s, P, "cppad", w1); else if( u == 1 ) f.sparse_jac_rev(x, s, P, "cppad", w2); else f.subgraph_jac_rev(x, s);
         for(size_t k = 0; k < s.nnz(); ++k) if( ! ck(nm, s.row()[k], s.col()[k], s.val()[k], J(s.row()[k], s.col()[k]), id) ) return o.str(); } }
   f.clear_subgraph();
   {  std::vector< std::set<size_t> > ps(m); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) if( A[i][j] ) ps[i].insert(j);
      sv row = sub.row(), col = sub.col(); cv v(row.size()); CppAD::sparse_jacobian_work k1, k2;
      for(int t = 0; t < 2; ++t) for(int u = 0; u < 2; ++u) { if( u ) f.SparseJacobianReverse(x, ps, row, col, v, k2); else f.SparseJacobianForward(x, ps, row, col, v, k1); for(size_t k = 0; k < row.size(); ++k) if( ! ck(u ? "SparseJacobianReverse" : "SparseJacobianForward", row[k], col[k], v[k], J(row[k], col[k]), id) ) return o.str(); } }
   rc HP = pat(B, n, n, R); rcv q(hs);
   for(int u = 0; u < 2; ++u) { CppAD::sparse_hes_work wk; for(int t = 0; t < 2; ++t) { for(size_t k = 0; k < q.nnz(); ++k) q.set(k, 7.5); w[0] = 1 + R.below(3);
      h.sparse_hes(x, w, q, HP, u ? "cppad.general" : "cppad.symmetric", wk); for(size_t k = 0; k < q.nnz(); ++k) if( ! ck(u ? "sparse_hes cppad.general" : "sparse_hes cppad.symmetric", q.row()[k], q.col()[k], q.val()[k], w[0] * c[q.row()[k]][q.col()[k]], hid) ) return o.str(); } }
   {  std::vector< std::set<size_t> > ps(n); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if( B[i][j] ) ps[i].insert(j); sv row = hs.row(), col = hs.col(); cv v(row.size());
      for(int u = 0; u < 2; ++u) { CppAD::sparse_hessian_work wk; if( u ) wk.color_method = "cppad.general"; for(int t = 0; t < 2; ++t) { h.SparseHessian(x, w, ps, row, col, v, wk); for(size_t k = 0; k < row.size(); ++k) if( ! ck(u ? "SparseHessian general" : "SparseHessian symmetric", row[k], col[k], v[k], w[0] * c[row[k]][col[k]], hid) ) return o.str(); } } }
   if( sample_due() ) sample(id + " x=" + str(x)); return "";
}
