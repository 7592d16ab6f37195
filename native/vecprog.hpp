// random programs with several recorded vectors, stores and loads with constant, dynamic and variable indices and values
# pragma once
# include "prog.hpp"
typedef std::vector<double> dv;
using orc::Jet; using orc::Dual;
enum { LOAD, STORE, COPY, ARITH, USE };
struct VI { int k, vec, idx, val, vec2, idx2; double c; int kind; };
struct VProg { int nx, nd; std::vector<int> size; std::vector<dv> init; std::vector<VI> ins; std::vector<int> out;
   std::string str() const { std::ostringstream o; o << "nx=" << nx << " nd=" << nd << " vectors"; for(auto& v : init) o << vs(v); o << " :"; int s = nx + nd;
      for(auto& I : ins) { if( I.k == LOAD ) o << " s" << s++ << "=V" << I.vec << "[" << I.idx << "," << I.c << "]"; else if( I.k == STORE ) o << " V" << I.vec << "[" << I.idx << "," << I.c << "]=kind" << I.kind << " s" << I.val;
         else if( I.k == COPY ) o << " V" << I.vec << "[" << I.idx << "," << I.c << "]=V" << I.vec2 << "[" << I.idx2 << "," << I.c << "]"; else o << " s" << s++ << "=op" << I.kind << "(" << I.val << "," << I.idx << ")"; }
      o << " out="; for(int i : out) o << i << ","; return o.str(); } };
// index operand: slot i >= 0: a value in (0, n) that depends on the slot; i < 0: the constant -1-i
template <class T> T vidx(const std::vector<T>& s, int i, double c, int n) { using std::sin; if( i < 0 ) return sp::konst<T>(double((-1 - i) % n), size_t(-i)); return T(n * 0.5) + T(n * 0.49) * sin(T(2.0) * s[i] + T(c)); }
template <class T> struct Store {
   std::vector< std::vector<T> > v; bool bad;
   void init(const VProg& P) { bad = false; for(auto& x : P.init) { v.push_back(std::vector<T>()); for(double d : x) v.back().push_back(T(d)); } }
   size_t at(const T& i, int n) { double d = pos(i); double f = d - std::floor(d); if( f != 0 && (f < 0.03 || f > 0.97) ) bad = true; if( ! (d >= 0 && d < n) ) { bad = true; return 0; } return size_t(d); }
   static double pos(double d) { return d; }
   template <class S> static double pos(const Jet<S>& d) { return double(orc::val(d.c[0])); }
   T load(int k, const T& i) { return v[k][at(i, int(v[k].size()))]; }
   void store(int k, const T& i, const T& x) { v[k][at(i, int(v[k].size()))] = x; }
   void store_d(int k, const T& i, double x) { store(k, i, T(x)); }
   void copy(int k, const T& i, int l, const T& j) { store(k, i, load(l, j)); }
};
template <> struct Store<AD1> {
   std::vector< CppAD::VecAD<double>* > v; bool bad;
   ~Store() { for(auto p : v) delete p; }
   void init(const VProg& P) { bad = false; for(auto& x : P.init) { v.push_back(new CppAD::VecAD<double>(x.size())); for(size_t i = 0; i < x.size(); ++i) (*v.back())[i] = x[i]; } }
   AD1 load(int k, const AD1& i) { return (*v[k])[i]; }
   void store(int k, const AD1& i, const AD1& x) { (*v[k])[i] = x; }
   void store_d(int k, const AD1& i, double x) { if( x == std::floor(x) ) (*v[k])[i] = int(x); else (*v[k])[i] = x; }
   void copy(int k, const AD1& i, int l, const AD1& j) { (*v[k])[i] = (*v[l])[j]; }
};
inline void earlier(const VProg& P) { std::set<double> s; for(int i = 0; i < 5; ++i) s.insert(double(i)); for(auto& I : P.ins) s.insert(I.c); sp::prepare(s); }
template <class T> bool veval(const VProg& P, const std::vector<T>& x, const std::vector<T>& d, std::vector<T>& s) {
   using std::sin; s.clear(); for(auto& t : x) s.push_back(t); for(auto& t : d) s.push_back(t);
   Store<T> S; S.init(P);
   for(auto& I : P.ins) {
      if( I.k == LOAD ) s.push_back(S.load(I.vec, vidx(s, I.idx, I.c, P.size[I.vec])));
      else if( I.k == STORE ) { T i = vidx(s, I.idx, I.c, P.size[I.vec]); if( I.kind == 0 && I.val % 3 == 0 ) S.store_d(I.vec, i, I.c); else if( I.kind == 0 ) S.store(I.vec, i, sp::konst<T>(I.c, size_t(I.val))); else S.store(I.vec, i, s[I.val]); }
      else if( I.k == COPY ) { T i = vidx(s, I.idx, I.c, P.size[I.vec]), j = vidx(s, I.idx2, I.c, P.size[I.vec2]); S.copy(I.vec, i, I.vec2, j); }
      else { T a = s[I.val], b = s[I.idx]; s.push_back(I.kind == 0 ? a * b : I.kind == 1 ? a + b : I.kind == 2 ? sin(a) : a * T(I.c) - b); }
   }
   return ! S.bad;
}
static VProg vgen(Rng& R) {
   VProg P; P.nx = 1 + R.below(3); P.nd = R.below(3); int nv = 1 + R.below(3);
   for(int k = 0; k < nv; ++k) { P.size.push_back(1 + R.below(5)); P.init.push_back(dv()); for(int i = 0; i < P.size[k]; ++i) P.init[k].push_back(R.coin() ? double(R.below(4)) : R.uni(-1, 1)); }
   int ns = P.nx + P.nd, len = 3 + R.below(12);
   for(int t = 0; t < len; ++t) {
      VI I; int r = R.below(8); I.k = r < 3 ? LOAD : r < 6 ? STORE : r < 7 ? COPY : ARITH; I.vec = R.below(nv); I.vec2 = R.below(nv); I.c = R.coin() ? double(R.below(5)) - 2 : R.uni(-2, 2); I.kind = R.below(4);
      auto idx = [&]() { int q = R.below(3); return q == 0 ? -1 - R.below(5) : q == 1 ? R.below(P.nx + P.nd) : R.below(ns); };
      I.idx = idx(); I.idx2 = idx(); I.val = R.below(3) == 0 ? R.below(P.nx + P.nd) : R.below(ns);
      if( I.k == ARITH ) I.idx = R.below(ns);
      P.ins.push_back(I); if( I.k == LOAD || I.k == ARITH ) ++ns;
   }
   for(int k = 0; k < nv; ++k) if( R.coin() ) { VI I; I.k = LOAD; I.vec = k; I.vec2 = 0; I.idx = R.below(2) ? -1 - R.below(5) : R.below(ns); I.idx2 = 0; I.val = 0; I.c = 0.3; I.kind = 0; P.ins.push_back(I); ++ns; }
   int no = 1 + R.below(3); for(int i = 0; i < no; ++i) P.out.push_back(i == 0 ? ns - 1 : ns - 1 - R.below(std::min(ns, 5)));
   return P;
}
