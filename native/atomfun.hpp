// User defined atomic functions (all interfaces) for the replay of recordings that call them.
// Each result is a sum of products of arguments; the callbacks use only what the interface promises and check what they are given:
// results that are not requested are set to nan, so that any use of them shows.
# pragma once
# include <cppad/cppad.hpp>
# include <vector>
# include <string>
# include <set>
# include <cmath>
namespace af {
struct Term { double c; std::vector<int> ix; };
struct Fun { size_t n; std::vector< std::vector<Term> > y; size_t m() const { return y.size(); } };
inline const std::vector<Fun>& table() {
   static const std::vector<Fun> t = {
      { 2, { { {1, {0, 1}} } } },
      { 1, { { {1, {0, 0}} }, { {2, {0}} } } },
      { 3, { { {1, {0, 1}}, {1, {2}} }, { {1, {1, 1}}, {-0.5, {2}} }, { {1, {2}} } } },
      { 4, { { {1, {0, 1, 2}} }, { {1, {3}} }, { {1, {3, 3}}, {-1, {0}} }, { {1, {1}} } } },
      { 2, { { {1.5, {}} }, { {1, {1}}, {1, {0}} }, { {1, {0, 0, 1}} } } },
      { 3, { { {1, {2, 2}} }, { {1, {0}}, {-1, {1}} } } },
   };
   return t;
}
inline std::string& error() { static std::string e; return e; }
inline bool& optimized() { static bool b = false; return b; }   // then the coefficients of arguments and results that are not used are not specified (documented); only atomic_four tells which are used
inline void check(bool ok, const char* s) { if( ! ok && error().empty() ) error() = s; }
inline bool uses(const std::vector<Term>& y, size_t j, const std::vector<bool>& zero) {
   for(auto& t : y) { bool z = false, in = false; for(int k : t.ix) { in |= size_t(k) == j; z |= zero[k]; } if( in && ! z ) return true; }
   return false;
}
inline bool pairs(const std::vector<Term>& y, size_t j, size_t l, const std::vector<bool>& zero) {
   for(auto& t : y) { bool z = false; for(int k : t.ix) z |= zero[k];
      if( ! z ) for(size_t a = 0; a < t.ix.size(); ++a) for(size_t b = 0; b < t.ix.size(); ++b) if( a != b && size_t(t.ix[a]) == j && size_t(t.ix[b]) == l ) return true; }
   return false;
}
// plain evaluation
template <class T> std::vector<T> expand(const Fun& F, const std::vector<T>& x) {
   std::vector<T> y;
   for(auto& r : F.y) { T s(0.0); bool first = true; for(auto& t : r) { T p(t.c); bool one = t.c == 1; for(int k : t.ix) { if( one ) { p = x[k]; one = false; } else p = p * x[k]; } if( first ) s = p; else s = s + p; first = false; } y.push_back(s); }
   return y;
}
template <class T> struct V { typedef CppAD::vector<T> t; };
// Taylor coefficients of the product of the arguments ix without position skip (-1: none), orders 0 .. q
template <class T> std::vector<T> product(const std::vector<int>& ix, int skip, size_t q, const CppAD::vector<T>& tx) {
   std::vector<T> p(q + 1, T(0.0)); p[0] = T(1.0);
   for(size_t a = 0; a < ix.size(); ++a) if( int(a) != skip ) {
      std::vector<T> r(q + 1, T(0.0));
      for(size_t k = 0; k <= q; ++k) for(size_t i = 0; i <= k; ++i) r[k] += p[i] * tx[ix[a] * (q + 1) + k - i];
      p = r;
   }
   return p;
}
template <class T> T nan() { return T(std::numeric_limits<double>::quiet_NaN()); }
inline double num(double x) { return x; }
template <class B> double num(const CppAD::AD<B>& x) { return num(CppAD::Value(CppAD::Var2Par(x))); }
template <class T> void forward(const Fun& F, size_t p, size_t q, const std::vector<bool>& need, const CppAD::vector<T>& tx, CppAD::vector<T>& ty) {
   check(tx.size() == F.n * (q + 1), "forward: size of taylor_x"); check(ty.size() == F.m() * (q + 1), "forward: size of taylor_y"); if( ! error().empty() ) return;
   for(size_t i = 0; i < F.m(); ++i) {
      std::vector<T> s(q + 1, T(0.0));
      for(auto& t : F.y[i]) { std::vector<T> z = product(t.ix, -1, q, tx); for(size_t k = 0; k <= q; ++k) s[k] += T(t.c) * z[k]; }
      for(size_t k = 0; k <= q; ++k) if( k >= p ) ty[i * (q + 1) + k] = need[i] ? s[k] : nan<T>();
   }
}
// the lower orders given to a callback are those of the series (rounding: relative to the size of the arguments)
inline void lower(const Fun& F, size_t p, size_t q, const std::vector<bool>& need, const CppAD::vector<double>& tx, const CppAD::vector<double>& ty) {
   CppAD::vector<double> w(ty.size()); forward(F, 0, q, need, tx, w); if( ! error().empty() ) return;
   for(size_t i = 0; i < F.m(); ++i) for(size_t k = 0; k < p; ++k) if( need[i] ) {
      double a = w[i * (q + 1) + k], b = ty[i * (q + 1) + k]; if( std::isfinite(a) && std::fabs(a) < 1e6 ) check(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a)), "forward: lower orders of taylor_y"); }
}
template <class T> void reverse(const Fun& F, size_t q, const std::vector<bool>& need, const CppAD::vector<T>& tx, const CppAD::vector<T>& ty, CppAD::vector<T>& px, const CppAD::vector<T>& py) {
   check(tx.size() == F.n * (q + 1) && px.size() == tx.size(), "reverse: size of taylor_x"); check(ty.size() == F.m() * (q + 1) && py.size() == ty.size(), "reverse: size of taylor_y"); if( ! error().empty() ) return;
   for(size_t j = 0; j < px.size(); ++j) px[j] = T(0.0);
   for(size_t i = 0; i < F.m(); ++i) for(auto& t : F.y[i]) for(size_t a = 0; a < t.ix.size(); ++a) {
      std::vector<T> z = product(t.ix, int(a), q, tx);
      for(size_t k = 0; k <= q; ++k) for(size_t l = 0; l <= k; ++l) px[t.ix[a] * (q + 1) + l] += T(t.c) * py[i * (q + 1) + k] * z[k - l];
   }
   for(size_t j = 0; j < F.n; ++j) if( ! need[j] ) for(size_t k = 0; k <= q; ++k) px[j * (q + 1) + k] = nan<T>();
}
inline void lower_reverse(const Fun& F, size_t q, const CppAD::vector<double>& tx, const CppAD::vector<double>& ty, const std::vector<bool>& vy) { lower(F, q + 1, q, vy, tx, ty); }
typedef CppAD::sparse_rc< CppAD::vector<size_t> > RC;
typedef CppAD::vector<bool> VB; typedef CppAD::vector<CppAD::ad_type_enum> VT;
inline void jac(const Fun& F, const std::vector<bool>& zero, const VB& sx, const VB& sy, RC& p) {
   check(sx.size() == F.n && sy.size() == F.m(), "jac_sparsity: size of select"); if( ! error().empty() ) { p.resize(F.m(), F.n, 0); return; }
   std::vector< std::pair<size_t,size_t> > e;
   for(size_t i = 0; i < F.m(); ++i) for(size_t j = 0; j < F.n; ++j) if( sx[j] && sy[i] && uses(F.y[i], j, zero) ) e.push_back({i, j});
   p.resize(F.m(), F.n, e.size()); for(size_t k = 0; k < e.size(); ++k) p.set(k, e[k].first, e[k].second);
}
inline void hes(const Fun& F, const std::vector<bool>& zero, const VB& sx, const VB& sy, RC& p) {
   check(sx.size() == F.n && sy.size() == F.m(), "hes_sparsity: size of select"); if( ! error().empty() ) { p.resize(F.n, F.n, 0); return; }
   std::vector< std::pair<size_t,size_t> > e;
   for(size_t j = 0; j < F.n; ++j) for(size_t l = 0; l < F.n; ++l) { bool in = false; for(size_t i = 0; i < F.m(); ++i) in |= sy[i] && pairs(F.y[i], j, l, zero); if( in && sx[j] && sx[l] ) e.push_back({j, l}); }
   p.resize(F.n, F.n, e.size()); for(size_t k = 0; k < e.size(); ++k) p.set(k, e[k].first, e[k].second);
}
inline void depend(const Fun& F, VB& dx, const VB& dy) {
   check(dx.size() == F.n && dy.size() == F.m(), "rev_depend: size"); if( ! error().empty() ) return;
   std::vector<bool> zero(F.n, false); for(size_t j = 0; j < F.n; ++j) { dx[j] = false; for(size_t i = 0; i < F.m(); ++i) if( dy[i] && uses(F.y[i], j, zero) ) dx[j] = true; }
}
inline void types(const Fun& F, const VT& tx, VT& ty) {
   check(tx.size() == F.n && ty.size() == F.m(), "for_type: size"); if( ! error().empty() ) return;
   std::vector<bool> zero(F.n, false); for(size_t i = 0; i < F.m(); ++i) { ty[i] = CppAD::constant_enum; for(size_t j = 0; j < F.n; ++j) if( uses(F.y[i], j, zero) ) ty[i] = std::max(ty[i], tx[j]); }
}
inline bool izero(double x) { return x == 0; }
template <class T> std::vector<bool> zeros(const CppAD::vector<T>& par, const VT& tx) { std::vector<bool> z(tx.size()); for(size_t j = 0; j < z.size(); ++j) z[j] = tx[j] == CppAD::constant_enum && CppAD::IdenticalZero(par[j]); return z; }
inline std::vector<bool> all(size_t m) { return std::vector<bool>(m, true); }
inline std::vector<bool> sel(const VB& s) { std::vector<bool> r; for(size_t i = 0; i < s.size(); ++i) r.push_back(s[i]); return r; }
// ------------------------------------------------------------------------------------------- atomic_three
struct Three : public CppAD::atomic_three<double> {
   const Fun& F; Three(const Fun& f) : CppAD::atomic_three<double>("af_three" + std::to_string(&f - &table()[0])), F(f) {}
   typedef CppAD::vector<double> vd; typedef CppAD::vector< CppAD::AD<double> > va;
   template <class T> void given(const CppAD::vector<T>& par, const VT& tx, size_t q, const CppAD::vector<T>& x) {
      check(par.size() == F.n && tx.size() == F.n && x.size() == F.n * (q + 1), "size of parameter_x"); if( ! error().empty() ) return;
      for(size_t j = 0; j < F.n; ++j) if( tx[j] < CppAD::variable_enum ) {
         check(num(par[j]) == num(x[j * (q + 1)]) || num(par[j]) != num(par[j]), "value of a parameter argument"); for(size_t k = 1; k <= q; ++k) check(num(x[j * (q + 1) + k]) == 0, "higher order coefficient of a parameter argument");
      } }
   std::vector<bool> needed(const VT& tx, size_t need) { VT ty(F.m()); types(F, tx, ty); std::vector<bool> r(F.m(), true); if( need <= size_t(CppAD::variable_enum) ) for(size_t i = 0; i < F.m(); ++i) r[i] = size_t(ty[i]) == need; return r; }
   bool for_type(const vd& par, const VT& tx, VT& ty) override { types(F, tx, ty); return true; }
   bool forward(const vd& par, const VT& tx, size_t need, size_t p, size_t q, const vd& x, vd& y) override { given(par, tx, q, x); if( ! error().empty() ) return false; std::vector<bool> nd = needed(tx, need); if( p > 0 && ! optimized() ) lower(F, p, q, nd, x, y); af::forward(F, p, q, nd, x, y); return true; }
   bool forward(const va& par, const VT& tx, size_t need, size_t p, size_t q, const va& x, va& y) override { check(par.size() == F.n && tx.size() == F.n, "size of parameter_x"); if( ! error().empty() ) return false; af::forward(F, p, q, needed(tx, need), x, y); return true; }
   std::vector<bool> vars(const VT& tx) { std::vector<bool> r; for(size_t j = 0; j < F.n; ++j) r.push_back(tx[j] == CppAD::variable_enum); return r; }
   bool reverse(const vd& par, const VT& tx, size_t q, const vd& x, const vd& y, vd& px, const vd& py) override { given(par, tx, q, x); if( ! error().empty() ) return false; if( ! optimized() ) lower_reverse(F, q, x, y, needed(tx, CppAD::variable_enum)); af::reverse(F, q, vars(tx), x, y, px, py); return true; }
   bool reverse(const va& par, const VT& tx, size_t q, const va& x, const va& y, va& px, const va& py) override { check(par.size() == F.n && tx.size() == F.n, "size of parameter_x"); if( ! error().empty() ) return false; af::reverse(F, q, vars(tx), x, y, px, py); return true; }
   bool jac_sparsity(const vd& par, const VT& tx, bool dep, const VB& sx, const VB& sy, RC& out) override { check(par.size() == F.n && tx.size() == F.n, "size of parameter_x"); jac(F, zeros(par, tx), sx, sy, out); return true; }
   bool hes_sparsity(const vd& par, const VT& tx, const VB& sx, const VB& sy, RC& out) override { check(par.size() == F.n && tx.size() == F.n, "size of parameter_x"); hes(F, zeros(par, tx), sx, sy, out); return true; }
   bool rev_depend(const vd& par, const VT& tx, VB& dx, const VB& dy) override { depend(F, dx, dy); return true; }
};
// ------------------------------------------------------------------------------------------- atomic_four: the call id selects the function
struct Four : public CppAD::atomic_four<double> {
   Four() : CppAD::atomic_four<double>("af_four") {}
   typedef CppAD::vector<double> vd; typedef CppAD::vector< CppAD::AD<double> > va;
   const Fun& F(size_t id) { check(id >= 11 && id - 11 < table().size(), "call_id"); return table()[ (id - 11) % table().size() ]; }
   bool for_type(size_t id, const VT& tx, VT& ty) override { types(F(id), tx, ty); return true; }
   bool forward(size_t id, const VB& sy, size_t p, size_t q, const vd& x, vd& y) override { const Fun& f = F(id); check(sy.size() == f.m(), "forward: size of select_y"); if( ! error().empty() ) return false; if( p > 0 ) lower(f, p, q, sel(sy), x, y); af::forward(f, p, q, sel(sy), x, y); return true; }
   bool forward(size_t id, const VB& sy, size_t p, size_t q, const va& x, va& y) override { const Fun& f = F(id); check(sy.size() == f.m(), "forward: size of select_y"); if( ! error().empty() ) return false; af::forward(f, p, q, sel(sy), x, y); return true; }
   bool reverse(size_t id, const VB& sx, size_t q, const vd& x, const vd& y, vd& px, const vd& py) override { const Fun& f = F(id); check(sx.size() == f.n, "reverse: size of select_x"); if( ! error().empty() ) return false; af::reverse(f, q, sel(sx), x, y, px, py); return true; }
   bool reverse(size_t id, const VB& sx, size_t q, const va& x, const va& y, va& px, const va& py) override { const Fun& f = F(id); check(sx.size() == f.n, "reverse: size of select_x"); if( ! error().empty() ) return false; af::reverse(f, q, sel(sx), x, y, px, py); return true; }
   bool jac_sparsity(size_t id, bool dep, const VB& iz, const VB& sx, const VB& sy, RC& out) override { const Fun& f = F(id); check(iz.size() == f.n, "size of ident_zero_x"); if( ! error().empty() ) { out.resize(f.m(), f.n, 0); return false; } jac(f, sel(iz), sx, sy, out); return true; }
   bool hes_sparsity(size_t id, const VB& iz, const VB& sx, const VB& sy, RC& out) override { const Fun& f = F(id); check(iz.size() == f.n, "size of ident_zero_x"); if( ! error().empty() ) { out.resize(f.n, f.n, 0); return false; } hes(f, sel(iz), sx, sy, out); return true; }
   bool rev_depend(size_t id, const VB& iz, VB& dx, const VB& dy) override { depend(F(id), dx, dy); return true; }
};
// ------------------------------------------------------------------------------------------- atomic_base (atomic_two): the id of the call selects the function
struct Two : public CppAD::atomic_base<double> {
   size_t id; Two(option_enum o) : CppAD::atomic_base<double>("af_two", o), id(0) {}
   typedef CppAD::vector<double> vd; typedef CppAD::vector< CppAD::AD<double> > va; typedef CppAD::vector< std::set<size_t> > vset; typedef CppAD::vectorBool vp;
   void set_old(size_t i) override { id = i; }
   const Fun& F() { check(id >= 11 && id - 11 < table().size(), "id"); return table()[ (id - 11) % table().size() ]; }
   bool forward(size_t p, size_t q, const VB& vx, VB& vy, const vd& x, vd& y) override { const Fun& f = F();
      if( vx.size() > 0 ) { check(vx.size() == f.n && vy.size() == f.m(), "forward: size of vx"); if( ! error().empty() ) return false; std::vector<bool> z(f.n, false); for(size_t i = 0; i < f.m(); ++i) { vy[i] = false; for(size_t j = 0; j < f.n; ++j) if( vx[j] && uses(f.y[i], j, z) ) vy[i] = true; } }
      if( p > 0 && ! optimized() ) lower(f, p, q, all(f.m()), x, y); af::forward(f, p, q, all(f.m()), x, y); return true; }
   bool reverse(size_t q, const vd& x, const vd& y, vd& px, const vd& py) override { af::reverse(F(), q, all(F().n), x, y, px, py); return true; }
   // sets and their matrices
   static bool get(const vset& r, size_t i, size_t q, size_t k) { return r[i].count(k) > 0; } static void put(vset& r, size_t i, size_t q, size_t k, bool b) { if( b ) r[i].insert(k); else r[i].erase(k); }
   template <class W> static bool get(const W& r, size_t i, size_t q, size_t k) { return r[i * q + k]; } template <class W> static void put(W& r, size_t i, size_t q, size_t k, bool b) { r[i * q + k] = b; }
   static size_t want(const vset&, size_t n, size_t q) { return n; } template <class W> static size_t want(const W&, size_t n, size_t q) { return n * q; }
   static void start(vset& r) { for(size_t i = 0; i < r.size(); ++i) r[i].clear(); } template <class W> static void start(W&) {}
   std::vector<bool> none() { return std::vector<bool>(F().n, false); }
   template <class W> bool fj(size_t q, const W& r, W& s) { const Fun& f = F(); check(r.size() == want(r, f.n, q) && s.size() == want(s, f.m(), q), "for_sparse_jac: size"); if( ! error().empty() ) return false; start(s);
      for(size_t i = 0; i < f.m(); ++i) for(size_t k = 0; k < q; ++k) { bool b = false; for(size_t j = 0; j < f.n; ++j) b |= uses(f.y[i], j, none()) && get(r, j, q, k); put(s, i, q, k, b); } return true; }
   template <class W> bool rj(size_t q, const W& r, W& s) { const Fun& f = F(); check(r.size() == want(r, f.m(), q) && s.size() == want(s, f.n, q), "rev_sparse_jac: size"); if( ! error().empty() ) return false; start(s);
      for(size_t j = 0; j < f.n; ++j) for(size_t k = 0; k < q; ++k) { bool b = false; for(size_t i = 0; i < f.m(); ++i) b |= uses(f.y[i], j, none()) && get(r, i, q, k); put(s, j, q, k, b); } return true; }
   template <class W> bool fh(const VB& vx, const VB& r, const VB& s, W& h) { const Fun& f = F(); check(r.size() == f.n && s.size() == f.m() && h.size() == want(h, f.n, f.n), "for_sparse_hes: size"); if( ! error().empty() ) return false; start(h);
      for(size_t j = 0; j < f.n; ++j) for(size_t l = 0; l < f.n; ++l) { bool b = false; for(size_t i = 0; i < f.m(); ++i) b |= s[i] && pairs(f.y[i], j, l, none()); put(h, j, f.n, l, b && r[j] && r[l]); } return true; }
   template <class W> bool rh(const VB& vx, const VB& s, VB& t, size_t q, const W& r, const W& u, W& v) { const Fun& f = F();
      check(s.size() == f.m() && t.size() == f.n && r.size() == want(r, f.n, q) && u.size() == want(u, f.m(), q) && v.size() == want(v, f.n, q), "rev_sparse_hes: size"); if( ! error().empty() ) return false; start(v);
      for(size_t j = 0; j < f.n; ++j) { t[j] = false; for(size_t i = 0; i < f.m(); ++i) if( s[i] && uses(f.y[i], j, none()) ) t[j] = true; }
      for(size_t j = 0; j < f.n; ++j) for(size_t k = 0; k < q; ++k) { bool b = false;
         for(size_t i = 0; i < f.m(); ++i) { b |= uses(f.y[i], j, none()) && get(u, i, q, k); if( s[i] ) for(size_t l = 0; l < f.n; ++l) b |= pairs(f.y[i], j, l, none()) && get(r, l, q, k); } put(v, j, q, k, b); } return true; }
   bool for_sparse_jac(size_t q, const vset& r, vset& s, const vd& x) override { return fj(q, r, s); }
   bool for_sparse_jac(size_t q, const VB& r, VB& s, const vd& x) override { return fj(q, r, s); }
   bool for_sparse_jac(size_t q, const vp& r, vp& s, const vd& x) override { return fj(q, r, s); }
   bool rev_sparse_jac(size_t q, const vset& r, vset& s, const vd& x) override { return rj(q, r, s); }
   bool rev_sparse_jac(size_t q, const VB& r, VB& s, const vd& x) override { return rj(q, r, s); }
   bool rev_sparse_jac(size_t q, const vp& r, vp& s, const vd& x) override { return rj(q, r, s); }
   bool for_sparse_hes(const VB& vx, const VB& r, const VB& s, vset& h, const vd& x) override { return fh(vx, r, s, h); }
   bool for_sparse_hes(const VB& vx, const VB& r, const VB& s, VB& h, const vd& x) override { return fh(vx, r, s, h); }
   bool for_sparse_hes(const VB& vx, const VB& r, const VB& s, vp& h, const vd& x) override { return fh(vx, r, s, h); }
   bool rev_sparse_hes(const VB& vx, const VB& s, VB& t, size_t q, const vset& r, const vset& u, vset& v, const vd& x) override { return rh(vx, s, t, q, r, u, v); }
   bool rev_sparse_hes(const VB& vx, const VB& s, VB& t, size_t q, const VB& r, const VB& u, VB& v, const vd& x) override { return rh(vx, s, t, q, r, u, v); }
   bool rev_sparse_hes(const VB& vx, const VB& s, VB& t, size_t q, const vp& r, const vp& u, vp& v, const vd& x) override { return rh(vx, s, t, q, r, u, v); }
};
// ------------------------------------------------------------------------------------------- calls: code = function + 8 * interface
const int nface = 5;   // three, four, two with packed, bool and set sparsity
template <class T> std::vector<T> apply(int code, const std::vector<T>& x) { return expand(table()[code % 8], x); }
inline std::vector< CppAD::AD<double> > apply(int code, const std::vector< CppAD::AD<double> >& x) {
   static Four four; static Two two[] = { {CppAD::atomic_base<double>::pack_sparsity_enum}, {CppAD::atomic_base<double>::bool_sparsity_enum}, {CppAD::atomic_base<double>::set_sparsity_enum} };
   static std::vector<Three*> three; if( three.empty() ) for(auto& f : table()) three.push_back(new Three(f));
   const Fun& f = table()[code % 8]; CppAD::vector< CppAD::AD<double> > ax(f.n), ay(f.m()); for(size_t j = 0; j < f.n; ++j) ax[j] = x[j];
   int k = code / 8; if( k == 0 ) (*three[code % 8])(ax, ay); else if( k == 1 ) four(size_t(11 + code % 8), ax, ay); else two[k - 2](ax, ay, size_t(11 + code % 8));
   std::vector< CppAD::AD<double> > y; for(size_t i = 0; i < f.m(); ++i) y.push_back(ay[i]); return y;
}
}
