// Native replay of the container and utility contracts: C07 setvec, C14 alloc, C15 vector, C16 sort, C17 numeric
# include "prog.hpp"
# include "main.hpp"
# include <set>
# include <map>
# include <list>
# include <complex>
# include <unistd.h>
# include <cppad/local/sparse/list_setvec.hpp>
# include <cppad/local/sparse/pack_setvec.hpp>
using CppAD::thread_alloc; using CppAD::local::pod_vector; using CppAD::local::pod_vector_maybe;
static std::ostringstream H;      // history of the current case
static void note(const std::string& s) { H << s << "; "; }
static std::string hist() { std::string s = H.str(); return s.size() > 1500 ? "... " + s.substr(s.size() - 1500) : s; }
# define N2S(x) std::to_string(x)
// ------------------------------------------------------------------ C07
template <class V> static std::string check_set(const V& v, const std::vector< std::set<size_t> >& m, const std::vector<char>& pend, size_t end, const char* nm) {
   if( v.n_set() != m.size() || v.end() != end ) return std::string(nm) + ": n_set or end";
   for(size_t i = 0; i < m.size(); ++i) if( ! pend[i] ) {
      std::vector<size_t> got; typename V::const_iterator itr(v, i); size_t e = *itr; size_t guard = 0;
      while( e != end && guard++ < end + 5 ) { got.push_back(e); e = *(++itr); }
      if( got != std::vector<size_t>(m[i].begin(), m[i].end()) ) return std::string(nm) + ": iteration over set " + N2S(i) + " visits " + vs(got) + ", required " + vs(std::vector<size_t>(m[i].begin(), m[i].end()));
      if( v.number_elements(i) != m[i].size() ) return std::string(nm) + ": number_elements(" + N2S(i) + ") is " + N2S(v.number_elements(i)) + ", required " + N2S(m[i].size());
      if( end < 40 ) for(size_t j = 0; j < end; ++j) { if( v.is_element(i, j) != (m[i].count(j) > 0) ) return std::string(nm) + ": is_element(" + N2S(i) + "," + N2S(j) + ")"; }
      else for(int k = 0; k < 6; ++k) { size_t j = (k * 7919 + i * 31) % end; if( v.is_element(i, j) != (m[i].count(j) > 0) ) return std::string(nm) + ": is_element(" + N2S(i) + "," + N2S(j) + ")"; }
   }
   return "";
}
template <class V> static std::string setvec(Rng& R, const char* nm) {
   typedef std::set<size_t> S;
   size_t end = R.below(6) == 0 ? 1 + R.below(3) : R.below(3) == 0 ? 60 + R.below(80) : 1 + R.below(20);
   if( R.below(12) == 0 ) end = 64 * (1 + R.below(3));
   int NV = 1 + R.below(2); std::vector<V> v(NV); std::vector< std::vector<S> > m(NV); std::vector< std::vector<S> > post(NV); std::vector< std::vector<char> > pend(NV);
   auto size = [&](int a, size_t n) { v[a].resize(n, end); m[a].assign(n, S()); post[a].assign(n, S()); pend[a].assign(n, 0); };
   for(int a = 0; a < NV; ++a) { size_t n = 1 + R.below(6); size(a, n); note("resize " + N2S(a) + " " + N2S(n) + " end=" + N2S(end)); }
   int len = 1 + R.below(R.below(4) == 0 ? 120 : 25);
   for(int t = 0; t < len; ++t) {
      int a = R.below(NV), b = R.below(NV); if( m[a].empty() || m[b].empty() ) { size(a, 2); size(b, 2); note("resize both"); continue; }
      size_t i = R.below(m[a].size()), j = R.below(m[a].size()), k = R.below(m[b].size()), e = R.below(end);
      int op = R.below(14); std::string A = N2S(a), B = N2S(b), I = N2S(i), J = N2S(j), K = N2S(k), Es = N2S(e);
      switch( op ) {
      case 0: case 1: if( pend[a][i] ) break; note("add " + A + " " + I + " " + Es); v[a].add_element(i, e); m[a][i].insert(e); break;
      case 2: case 3: case 4: { int c = 1 + R.below(R.below(5) == 0 ? 30 : 4); for(int q = 0; q < c; ++q) { size_t x = R.below(end); note("post " + A + " " + I + " " + N2S(x)); v[a].post_element(i, x); post[a][i].insert(x); pend[a][i] = 1; if( R.below(4) == 0 ) i = R.below(m[a].size()); } break; }
      case 5: case 6: note("process " + A + " " + I); v[a].process_post(i); m[a][i].insert(post[a][i].begin(), post[a][i].end()); post[a][i].clear(); pend[a][i] = 0; break;
      case 7: if( R.below(3) ) break; note("clear " + A + " " + I); v[a].clear(i); m[a][i].clear(); post[a][i].clear(); pend[a][i] = 0; break;
      case 8: case 9: if( pend[b][k] ) break; note("assign " + A + " " + I + " = " + B + " " + K); v[a].assignment(i, k, v[b]); m[a][i] = S(m[b][k]); post[a][i].clear(); pend[a][i] = 0; break;
      case 10: case 11: { if( pend[b][k] || pend[a][j] ) break; note("union " + A + " " + I + " = " + A + " " + J + " | " + B + " " + K); v[a].binary_union(i, j, k, v[b]); S s = m[a][j]; s.insert(m[b][k].begin(), m[b][k].end()); m[a][i] = s; post[a][i].clear(); pend[a][i] = 0; break; }
      case 12: { if( pend[b][k] || pend[a][j] || R.below(2) ) break; note("inter " + A + " " + I + " = " + A + " " + J + " & " + B + " " + K); v[a].binary_intersection(i, j, k, v[b]); S s; for(size_t x : m[a][j]) if( m[b][k].count(x) ) s.insert(x); m[a][i] = s; post[a][i].clear(); pend[a][i] = 0; break; }
      case 13: {
         int q = R.below(12); bool any = false; for(char c : pend[a]) any |= c; for(char c : pend[b]) any |= c;
         if( q == 0 ) { size_t n = 1 + R.below(5); size(a, n); note("resize " + A + " " + N2S(n)); }
         else if( q == 1 && ! any && a != b ) { note("copy " + A + " = " + B); v[a] = v[b]; m[a] = m[b]; post[a] = post[b]; pend[a] = pend[b]; }
         else if( q == 2 && ! any ) { note("swap " + A + " " + B); v[a].swap(v[b]); std::swap(m[a], m[b]); std::swap(post[a], post[b]); std::swap(pend[a], pend[b]); }
         break; }
      }
      if( R.below(6) == 0 || t + 1 == len ) for(int c = 0; c < NV; ++c) { std::string s = check_set(v[c], m[c], pend[c], end, nm); if( ! s.empty() ) return s + " in vector " + N2S(c); }
   }
   for(int a = 0; a < NV; ++a) for(size_t i = 0; i < m[a].size(); ++i) if( pend[a][i] ) { v[a].process_post(i); m[a][i].insert(post[a][i].begin(), post[a][i].end()); pend[a][i] = 0; }
   for(int c = 0; c < NV; ++c) { std::string s = check_set(v[c], m[c], pend[c], end, nm); if( ! s.empty() ) return s + " in vector " + N2S(c) + " when all posts are processed"; }
   return "";
}
// ------------------------------------------------------------------ C15
struct Counted {   // element with a constructor and a destructor that are balanced
   static long live; std::string s; Counted() : s("new") { ++live; } Counted(int k) : s("int " + N2S(k)) { ++live; } Counted(const Counted& o) : s(o.s) { ++live; } ~Counted() { --live; s = "dead"; }
   Counted& operator=(const Counted& o) { s = o.s; return *this; } bool operator==(const Counted& o) const { return s == o.s; } bool operator!=(const Counted& o) const { return s != o.s; }
};
long Counted::live = 0;
template <class T> struct Mk;
template <> struct Mk<double> { static double f(int k) { return k + 0.5; } };
template <> struct Mk<int> { static int f(int k) { return k; } };
template <> struct Mk<unsigned char> { static unsigned char f(int k) { return k; } };
template <> struct Mk<Counted> { static Counted f(int k) { Counted c; c.s = "value number " + N2S(k) + " that is long enough to be on the heap"; return c; } };
template <class V, class T> static std::string same(const V& v, const std::vector<T>& m, size_t known, const char* nm) {
   if( v.size() != m.size() ) return std::string(nm) + ": size is " + N2S(v.size()) + ", required " + N2S(m.size());
   if( v.capacity() < v.size() ) return std::string(nm) + ": capacity is less than size";
   for(size_t i = 0; i < m.size() && i < known; ++i) if( ! (v[i] == m[i]) ) return std::string(nm) + ": element " + N2S(i) + " of " + N2S(m.size()) + " is not the value last stored";
   return "";
}
template <class T> static std::string cppvec(Rng& R, const char* nm) {
   typedef CppAD::vector<T> V; const int NV = 3; long live0 = Counted::live; std::string s;
   {
   std::vector<V> v(NV); std::vector< std::vector<T> > m(NV); int k = 0;
   int len = 1 + R.below(30);
   for(int t = 0; t < len; ++t) {
      int a = R.below(NV), b = R.below(NV); std::string A = N2S(a), B = N2S(b); size_t n;
      switch( R.below(15) ) {
      case 0: case 1: case 2: note("push " + A); v[a].push_back(Mk<T>::f(++k)); m[a].push_back(Mk<T>::f(k)); break;
      case 3: n = R.below(R.coin() ? 6 : 50); note("resize " + A + " " + N2S(n)); { size_t o = m[a].size(); v[a].resize(n); m[a].resize(n); for(size_t i = o; i < n; ++i) { v[a][i] = Mk<T>::f(++k); m[a][i] = Mk<T>::f(k); } } break;
      case 4: if( R.below(3) == 0 ) { note("clear " + A); v[a].clear(); m[a].clear(); if( v[a].capacity() != 0 ) return std::string(nm) + ": capacity after clear"; } break;
      case 5: note("assign " + A + " = " + B); { V& ra = v[a]; const V& rb = v[b]; ra = rb; std::vector<T> c = m[b]; m[a] = c; } break;
      case 6: note("swap " + A + " " + B); v[a].swap(v[b]); if( a != b ) std::swap(m[a], m[b]); break;
      case 7: note("push_vector " + A + " " + B); { std::vector<T> c = m[b]; v[a].push_vector(v[b]); m[a].insert(m[a].end(), c.begin(), c.end()); } if( m[a].size() > 400 ) { v[a].clear(); m[a].clear(); } break;
      case 8: note("copy construct"); { V c(v[a]); if( ! (s = same(c, m[a], 1u << 30, nm)).empty() ) return s + " (copy)"; if( c.size() && v[a].size() && c.data() == v[a].data() ) return std::string(nm) + ": copy shares storage"; if( c.size() ) { c[0] = Mk<T>::f(++k); } } break;
      case 9: if( m[a].size() ) { size_t i = R.below(m[a].size()); note("set " + A); v[a][i] = Mk<T>::f(++k); m[a][i] = Mk<T>::f(k); } break;
      case 10: note("move " + A + " = move " + B); if( a != b ) { v[a] = std::move(v[b]); m[a] = m[b]; v[b] = V(); m[b].clear(); } break;
      case 11: n = R.below(20); note("construct size " + N2S(n)); { V c(n, Mk<T>::f(++k)); std::vector<T> w(n, Mk<T>::f(k)); if( ! (s = same(c, w, 1u << 30, nm)).empty() ) return s + " (sizing constructor)"; c.swap(v[a]); m[a] = w; } break;
      case 12: note("push own element"); if( m[a].size() ) { size_t i = R.below(m[a].size()); T c = m[a][i]; v[a].push_back(v[a][i]); m[a].push_back(c); } break;
      case 13: note("move construct"); { V c(std::move(v[a])); if( ! (s = same(c, m[a], 1u << 30, nm)).empty() ) return s + " (move)"; v[a] = V(); v[a] = std::move(c); } break;
      case 14: note("iterate"); { size_t i = 0; for(auto it = v[a].begin(); it != v[a].end(); ++it, ++i) if( i >= m[a].size() || ! (*it == m[a][i]) ) return std::string(nm) + ": iterator"; if( i != m[a].size() ) return std::string(nm) + ": iterator ends early";
         if( i > 2 ) { auto it = v[a].begin(); size_t j = R.below(i); it += j; if( ! (*it == m[a][j]) || size_t(v[a].end() - it) != i - j ) return std::string(nm) + ": random access iterator"; auto jt = it; jt = v[a].begin() + (i - 1); if( (it < jt) != (j < i - 1) || (it == jt) != (j == i - 1) ) return std::string(nm) + ": iterator order"; --jt; if( ! (*jt == m[a][i - 2]) ) return std::string(nm) + ": iterator decrement"; jt++; jt -= 1; if( ! (*jt == m[a][i - 2]) ) return std::string(nm) + ": iterator arithmetic"; } } break;
      }
      for(int c = 0; c < NV; ++c) if( ! (s = same(v[c], m[c], 1u << 30, nm)).empty() ) return s + " in vector " + N2S(c);
      for(int c = 0; c < NV; ++c) for(int d = 0; d < c; ++d) if( v[c].capacity() && v[d].capacity() && v[c].data() == v[d].data() ) return std::string(nm) + ": two vectors share storage";
   }
   }
   if( Counted::live != live0 ) return std::string(nm) + ": constructors and destructors are not balanced";
   return "";
}
template <class V, class T> static std::string podvec(Rng& R, const char* nm) {
   const int NV = 2; long live0 = Counted::live; std::string s;
   {
   std::vector< std::unique_ptr<V> > v(NV); for(auto& p : v) p.reset(new V); std::vector< std::vector<T> > m(NV); int k = 0;
   int len = 1 + R.below(30);
   for(int t = 0; t < len; ++t) {
      int a = R.below(NV), b = R.below(NV); std::string A = N2S(a), B = N2S(b); size_t n; V& x = *v[a]; V& y = *v[b];
      switch( R.below(9) ) {
      case 0: case 1: note("push " + A); { T e = Mk<T>::f(++k); x.push_back(e); m[a].push_back(e); } break;
      case 2: n = R.below(R.coin() ? 6 : 60); note("extend " + A + " " + N2S(n)); { size_t o = x.extend(n); if( o != m[a].size() ) return std::string(nm) + ": extend returns " + N2S(o) + ", required " + N2S(m[a].size()); m[a].resize(o + n); for(size_t i = o; i < o + n; ++i) { x[i] = Mk<T>::f(++k); m[a][i] = Mk<T>::f(k); } } break;
      case 3: n = R.below(60); note("resize " + A + " " + N2S(n)); { size_t cap = x.capacity(), o = m[a].size(); x.resize(n); m[a].resize(n); size_t from = n <= cap ? o : 0; for(size_t i = from; i < n; ++i) { x[i] = Mk<T>::f(++k); m[a][i] = Mk<T>::f(k); } } break;
      case 4: if( R.below(3) == 0 ) { note("clear " + A); x.clear(); m[a].clear(); if( x.capacity() != 0 ) return std::string(nm) + ": capacity after clear"; } break;
      case 5: note("assign " + A + " = " + B); { const V& z = y; x = z; std::vector<T> c = m[b]; m[a] = c; } break;
      case 6: note("swap " + A + " " + B); x.swap(y); if( a != b ) std::swap(m[a], m[b]); break;
      case 7: if( m[a].size() ) { size_t i = R.below(m[a].size()); note("set " + A); x[i] = Mk<T>::f(++k); m[a][i] = Mk<T>::f(k); } break;
      case 8: n = 1 + R.below(40); note("sizing constructor " + N2S(n)); { V c(n); if( c.size() != n ) return std::string(nm) + ": sizing constructor"; std::vector<T> w(n); for(size_t i = 0; i < n; ++i) { c[i] = Mk<T>::f(++k); w[i] = Mk<T>::f(k); } c.swap(x); m[a] = w; } break;
      }
      for(int c = 0; c < NV; ++c) if( ! (s = same(*v[c], m[c], 1u << 30, nm)).empty() ) return s + " in vector " + N2S(c);
      if( v[0]->capacity() && v[1]->capacity() && v[0]->data() == v[1]->data() ) return std::string(nm) + ": two vectors share storage";
   }
   }
   if( Counted::live != live0 ) return std::string(nm) + ": constructors and destructors are not balanced";
   return "";
}
static std::string vecbool(Rng& R) {
   typedef CppAD::vectorBool V; const int NV = 2; std::vector<V> v(NV); std::vector< std::vector<char> > m(NV); int len = 1 + R.below(40);
   for(int t = 0; t < len; ++t) {
      int a = R.below(NV), b = R.below(NV); std::string A = N2S(a), B = N2S(b); size_t n;
      switch( R.below(10) ) {
      case 0: case 1: { int c = 1 + R.below(R.coin() ? 70 : 3); note("push " + A + " x " + N2S(c)); while( c-- ) { bool e = R.coin(); v[a].push_back(e); m[a].push_back(e); } break; }
      case 2: n = R.below(R.coin() ? 6 : 3000); note("resize " + A + " " + N2S(n)); { size_t cap = v[a].capacity(), o = m[a].size(); v[a].resize(n); m[a].resize(n); for(size_t i = n <= cap ? o : 0; i < n; ++i) { m[a][i] = R.coin(); v[a][i] = bool(m[a][i]); } } break;
      case 3: if( R.below(3) == 0 ) { note("clear " + A); v[a].clear(); m[a].clear(); } break;
      case 4: if( m[a].empty() || m[a].size() == m[b].size() ) { note("assign " + A + " = " + B); const V& z = v[b]; v[a] = z; std::vector<char> c = m[b]; m[a] = c; } break;
      case 5: note("swap " + A + " " + B); v[a].swap(v[b]); if( a != b ) std::swap(m[a], m[b]); break;
      case 6: case 7: for(int c = 0; c < 5; ++c) if( m[a].size() ) { size_t i = R.below(m[a].size()); bool e = R.coin(); note("set " + A + " " + N2S(i)); v[a][i] = e; m[a][i] = e; if( m[b].size() ) { size_t j = R.below(m[b].size()); v[a][i] = v[b][j]; m[a][i] = m[b][j]; } } break;
      case 8: note("copy"); { V c(v[a]); if( c.size() != m[a].size() ) return "vectorBool: size of copy"; for(size_t i = 0; i < m[a].size(); ++i) if( bool(c[i]) != bool(m[a][i]) ) return "vectorBool: element " + N2S(i) + " of copy"; if( c.size() ) c[0] = ! c[0]; } break;
      case 9: note("push_vector " + A + " " + B); { std::vector<char> c = m[b]; v[a].push_vector(v[b]); m[a].insert(m[a].end(), c.begin(), c.end()); } if( m[a].size() > 6000 ) { v[a].clear(); m[a].clear(); } break;
      }
      for(int c = 0; c < NV; ++c) { if( v[c].size() != m[c].size() ) return "vectorBool: size is " + N2S(v[c].size()) + ", required " + N2S(m[c].size()); const V& z = v[c]; for(size_t i = 0; i < m[c].size(); ++i) if( bool(z[i]) != bool(m[c][i]) ) return "vectorBool: element " + N2S(i) + " of " + N2S(m[c].size()) + " in vector " + N2S(c); }
   }
   return "";
}
// ------------------------------------------------------------------ C14
static size_t cur_thread = 0; static size_t the_thread() { return cur_thread; } static bool not_parallel() { return false; }
struct Block { char* p; size_t cap, thread; unsigned char fill; int arr; size_t n; };
static std::string alloc(Rng& R) {
   std::vector<Block> use; std::map< size_t, std::map<size_t, size_t> > avail; size_t nth = 1 + R.below(3); bool hold = false; std::string s;
   std::vector<size_t> inuse0(nth); cur_thread = 0;
   static bool setup = false; if( ! setup ) { thread_alloc::parallel_setup(4, not_parallel, the_thread); setup = true; }
   thread_alloc::hold_memory(false); for(size_t t = 0; t < 4; ++t) thread_alloc::free_available(t);
   for(size_t t = 0; t < nth; ++t) { inuse0[t] = thread_alloc::inuse(t); if( thread_alloc::available(t) ) return "memory available after free_available"; }
   auto filled = [&](const Block& b) { for(size_t i = 0; i < b.cap; i += (i < 64 || i + 64 > b.cap) ? 1 : 37) if( (unsigned char)b.p[i] != b.fill ) return false; return true; };
   int len = 1 + R.below(40);
   for(int t = 0; t < len; ++t) {
      cur_thread = R.below(nth); std::string T = N2S(cur_thread);
      switch( R.below(12) ) {
      case 0: case 1: case 2: case 3: { size_t n = R.below(4) == 0 ? R.below(3) : R.below(3) == 0 ? R.below(20000) : R.below(600); size_t cap = 0;
         if( R.below(5) == 0 ) { size_t c = 128; for(int k = R.below(12); k > 0; --k) c = 3 * ((c + 1) / 2); n = c + R.below(3) - 1; }
         note("get " + T + " " + N2S(n)); Block b; b.p = (char*)thread_alloc::get_memory(n, cap); b.cap = cap; b.thread = cur_thread; b.fill = (unsigned char)(1 + R.below(255)); b.arr = 0;
         if( cap < n ) return "capacity " + N2S(cap) + " is less than the " + N2S(n) + " bytes requested";
         if( size_t(b.p) % sizeof(double) || size_t(b.p) % sizeof(void*) ) return "block is not aligned";
         for(auto& u : use) if( b.p < u.p + u.cap && u.p < b.p + b.cap ) return "new block overlaps a block in use";
         auto& av = avail[cur_thread]; if( av[cap] ) --av[cap];
         memset(b.p, b.fill, cap); use.push_back(b); break; }
      case 4: { size_t n = R.below(40), out = 0; note("create_array " + T + " " + N2S(n)); double* d = thread_alloc::create_array<double>(n, out); if( out < n ) return "create_array is too small";
         Block b; b.p = (char*)d; b.thread = cur_thread; b.cap = 0; for(size_t c = 128; ; c = 3 * ((c + 1) / 2)) if( c >= n * sizeof(double) ) { b.cap = c; break; } b.fill = (unsigned char)(1 + R.below(255)); b.arr = 1; b.n = out;
         if( out * sizeof(double) > b.cap ) return "create_array reports more elements than fit in its block";
         for(auto& u : use) if( b.p < u.p + u.cap && u.p < b.p + b.cap ) return "new array overlaps a block in use";
         auto& av = avail[cur_thread]; if( av[b.cap] ) --av[b.cap]; memset(b.p, b.fill, b.cap); use.push_back(b); break; }
      case 5: case 6: case 7: case 8: if( use.size() ) { size_t i = R.below(use.size()); Block b = use[i]; note("return block of " + N2S(b.thread) + " capacity " + N2S(b.cap)); if( ! filled(b) ) return "contents of a block in use changed"; use.erase(use.begin() + i);
         if( R.coin() ) cur_thread = b.thread;
         if( b.arr ) thread_alloc::delete_array((double*)b.p); else thread_alloc::return_memory(b.p); if( hold ) ++avail[b.thread][b.cap]; } break;
      case 9: hold = R.coin(); note(hold ? "hold" : "do not hold"); thread_alloc::hold_memory(hold); break;
      case 10: { size_t th = R.below(nth); note("free_available " + N2S(th)); thread_alloc::free_available(th); avail[th].clear(); break; }
      case 11: { size_t th = cur_thread; std::vector<Counted>(); size_t out; note("create_array of objects"); long l0 = Counted::live; Counted* c = thread_alloc::create_array<Counted>(R.below(9), out); if( Counted::live != l0 + (long)out ) return "create_array does not construct every element"; for(size_t i = 0; i < out; ++i) if( c[i].s != "new" ) return "create_array element not constructed";
         size_t b = 128; while( b < out * sizeof(Counted) ) b = 3 * ((b + 1) / 2); auto& av = avail[th]; size_t had = av[b]; if( had ) --av[b];
         thread_alloc::delete_array(c); if( Counted::live != l0 ) return "delete_array does not destroy every element"; if( hold ) ++av[b]; break; }
      }
      for(size_t th = 0; th < nth; ++th) {
         size_t iu = inuse0[th], av = 0; for(auto& u : use) if( u.thread == th ) iu += u.cap; for(auto& a : avail[th]) av += a.first * a.second;
         if( thread_alloc::inuse(th) != iu ) return "inuse(" + N2S(th) + ") is " + N2S(thread_alloc::inuse(th)) + ", required " + N2S(iu);
         if( thread_alloc::available(th) != av ) return "available(" + N2S(th) + ") is " + N2S(thread_alloc::available(th)) + ", required " + N2S(av);
      }
   }
   for(auto& u : use) { if( ! filled(u) ) return "contents of a block in use changed"; if( u.arr ) thread_alloc::delete_array((double*)u.p); else thread_alloc::return_memory(u.p); }
   cur_thread = 0;
   // everything is returned: free_all must succeed exactly when nothing is in use
   bool none = true; for(size_t th = 0; th < 4; ++th) if( thread_alloc::inuse(th) ) none = false;
   thread_alloc::hold_memory(false);
   if( thread_alloc::free_all() != none ) return "free_all";
   for(size_t th = 0; th < 4; ++th) if( thread_alloc::available(th) ) return "memory available after free_all";
   return "";
}
// ------------------------------------------------------------------ C16
template <class K> static std::string sortk(const std::vector<K>& key) {
   CppAD::vector<K> k(key.size()); CppAD::vector<size_t> ind(key.size()); for(size_t i = 0; i < key.size(); ++i) { k[i] = key[i]; ind[i] = 12345; }
   CppAD::index_sort(k, ind); std::vector<char> seen(key.size(), 0);
   for(size_t i = 0; i < key.size(); ++i) { if( ind[i] >= key.size() || seen[ind[i]] ) return "index_sort result is not a permutation"; seen[ind[i]] = 1; }
   for(size_t i = 1; i < key.size(); ++i) if( key[ind[i]] < key[ind[i-1]] ) return "index_sort result is not in order";
   for(size_t i = 0; i < key.size(); ++i) if( ! (k[i] == key[i]) ) return "index_sort changes the keys";
   return "";
}
template <class P> static std::string pattern_ok(const P& p, size_t nr, size_t nc, const std::vector< std::pair<size_t,size_t> >& e, const char* nm) {
   if( p.nr() != nr || p.nc() != nc || p.nnz() != e.size() || p.row().size() != e.size() || p.col().size() != e.size() ) return std::string(nm) + ": dimensions";
   for(size_t k = 0; k < e.size(); ++k) if( p.row()[k] != e[k].first || p.col()[k] != e[k].second ) return std::string(nm) + ": entry " + N2S(k);
   for(int c = 0; c < 2; ++c) {
      auto o = c ? p.col_major() : p.row_major(); if( o.size() != e.size() ) return std::string(nm) + ": size of the order"; std::vector<char> seen(e.size(), 0);
      for(size_t k = 0; k < e.size(); ++k) { if( o[k] >= e.size() || seen[o[k]] ) return std::string(nm) + (c ? ": col_major" : ": row_major") + " is not a permutation"; seen[o[k]] = 1; }
      for(size_t k = 1; k < e.size(); ++k) { auto a = e[o[k-1]], b = e[o[k]]; if( c ) { std::swap(a.first, a.second); std::swap(b.first, b.second); } if( b < a ) return std::string(nm) + (c ? ": col_major" : ": row_major") + " is not in order"; }
   }
   return "";
}
typedef std::vector< std::pair<size_t,size_t> > PV;
template <class SV> static std::string sparserc(Rng& R) {
   typedef CppAD::sparse_rc<SV> RC; const int NV = 3; std::vector<RC> p(NV); std::vector<PV> m(NV); std::vector<size_t> nr(NV, 0), nc(NV, 0); std::string s;
   int len = 1 + R.below(20);
   auto fresh = [&](int a, std::pair<size_t,size_t>& e) { for(int t = 0; t < 20; ++t) { e = std::make_pair(size_t(R.below(nr[a])), size_t(R.below(nc[a]))); if( std::find(m[a].begin(), m[a].end(), e) == m[a].end() ) return true; } return false; };
   for(int t = 0; t < len; ++t) {
      int a = R.below(NV), b = R.below(NV); std::string A = N2S(a), B = N2S(b); std::pair<size_t,size_t> e;
      switch( R.below(11) ) {
      case 0: { nr[a] = 1 + R.below(6); nc[a] = 1 + R.below(6); size_t n = R.below(nr[a] * nc[a] + 1); PV q; for(size_t i = 0; i < nr[a]; ++i) for(size_t j = 0; j < nc[a]; ++j) q.push_back(std::make_pair(i, j)); for(size_t i = 0; i < q.size(); ++i) std::swap(q[i], q[R.below(q.size())]); q.resize(n);
         note("resize " + A + " " + N2S(nr[a]) + " " + N2S(nc[a]) + " " + N2S(n)); if( R.coin() ) p[a].resize(nr[a], nc[a], n); else { RC c(nr[a], nc[a], n); p[a] = c; } for(size_t k = 0; k < n; ++k) p[a].set(k, q[k].first, q[k].second); m[a] = q; break; }
      case 1: case 2: if( nr[a] && fresh(a, e) ) { note("push " + A + " " + N2S(e.first) + "," + N2S(e.second)); p[a].push_back(e.first, e.second); m[a].push_back(e); } break;
      case 3: if( m[a].size() && fresh(a, e) ) { size_t k = R.below(m[a].size()); note("set " + A + " " + N2S(k)); p[a].set(k, e.first, e.second); m[a][k] = e; } break;
      case 4: note("set_row_major " + A); p[a].set_row_major(); break;
      case 5: note("set_col_major " + A); p[a].set_col_major(); break;
      case 6: { note("assign " + A + " = " + B); const RC& z = p[b]; p[a] = z; m[a] = PV(m[b]); nr[a] = nr[b]; nc[a] = nc[b]; } break;
      case 7: if( a != b ) { note("swap " + A + " " + B); p[a].swap(p[b]); std::swap(m[a], m[b]); std::swap(nr[a], nr[b]); std::swap(nc[a], nc[b]); } break;
      case 8: case 9: { if( m[b].size() && a != b && R.coin() ) { // a permutation of the other pattern
            PV q = m[b]; for(size_t i = 0; i < q.size(); ++i) std::swap(q[i], q[R.below(q.size())]); nr[a] = nr[b]; nc[a] = nc[b]; p[a].resize(nr[a], nc[a], q.size()); for(size_t k = 0; k < q.size(); ++k) p[a].set(k, q[k].first, q[k].second); m[a] = q; note("permute " + A + " from " + B);
            if( R.below(3) == 0 ) p[a].set_row_major(); if( R.below(3) == 0 ) p[a].set_col_major(); if( R.below(4) == 0 && fresh(a, e) ) { size_t k = R.below(q.size()); p[a].set(k, e.first, e.second); m[a][k] = e; } }
         note("compare " + A + " " + B); PV x = m[a], y = m[b]; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); bool want = nr[a] == nr[b] && nc[a] == nc[b] && x == y;
         if( (p[a] == p[b]) != want ) return std::string("sparse_rc: equality is ") + (want ? "false" : "true") + " for patterns that are " + (want ? "the same" : "different"); break; }
      case 10: { note("copy " + A); RC c(p[a]); if( ! (s = pattern_ok(c, nr[a], nc[a], m[a], "copy of sparse_rc")).empty() ) return s; if( m[a].size() ) {
            CppAD::sparse_rcv<SV, CppAD::vector<double> > v(c); for(size_t k = 0; k < m[a].size(); ++k) v.set(k, k + 0.25); CppAD::sparse_rcv<SV, CppAD::vector<double> > w; w = v; CppAD::sparse_rcv<SV, CppAD::vector<double> > u(w); if( R.coin() ) { CppAD::sparse_rcv<SV, CppAD::vector<double> > x; x.swap(u); u = x; }
            if( ! (s = pattern_ok(u, nr[a], nc[a], m[a], "sparse_rcv")).empty() ) return s; for(size_t k = 0; k < m[a].size(); ++k) if( u.val()[k] != k + 0.25 ) return "sparse_rcv: value " + N2S(k); } break; }
      }
      for(int c = 0; c < NV; ++c) if( ! (s = pattern_ok(p[c], nr[c], nc[c], m[c], "sparse_rc")).empty() ) return s + " of pattern " + N2S(c);
   }
   return "";
}
static std::string sorting(Rng& R) {
   int k = R.below(6); size_t n = R.below(R.coin() ? 8 : 200); std::string s;
   if( k == 0 ) { std::vector<double> v(n); int r = 1 + R.below(10); for(auto& x : v) x = R.coin() ? R.below(r) : R.uni(-3, 3); note("double keys " + vs(v)); return sortk(v); }
   if( k == 1 ) { std::vector<size_t> v(n); int r = 1 + R.below(300); for(auto& x : v) x = R.below(r); note("size_t keys " + vs(v)); return sortk(v); }
   if( k == 2 ) { std::set<int> a, b, u; for(size_t i = 0; i < n % 20; ++i) { a.insert(R.below(25) - 9); if( R.coin() ) b.insert(R.below(25) - 9); } u = a; u.insert(b.begin(), b.end()); if( CppAD::set_union(a, b) != u ) return "set_union"; if( CppAD::set_union(b, a) != u ) return "set_union"; return ""; }
   if( k < 5 ) return sparserc< CppAD::vector<size_t> >(R);
   return sparserc< std::vector<size_t> >(R);
}
// ------------------------------------------------------------------ C17
static std::string numeric(Rng& R) {
   std::ostringstream o; o.precision(17); int k = R.below(3);
   if( k == 0 ) {
      size_t d = R.below(R.below(4) == 0 ? 30 : 8), q = R.below(d + 3); CppAD::vector<double> a(d + 1); double z = R.below(4) == 0 ? double(R.below(5) - 2) : R.uni(-1.5, 1.5); for(size_t i = 0; i <= d; ++i) a[i] = R.below(5) == 0 ? 0 : R.uni(-2, 2);
      ld want = 0, scale = 0; for(size_t i = q; i <= d; ++i) { ld f = a[i]; for(size_t j = 0; j < q; ++j) f *= (ld)(i - j); want += f * powl((ld)z, i - q); scale += fabsl(f) * powl(fabsl((ld)z), i - q); }
      double got = CppAD::Poly(q, a, z); if( ! (std::fabs(got - want) <= 1e-12 * (double)scale + 1e-300) ) { o << "Poly derivative " << q << " of degree " << d << " at " << z << " is " << got << ", required " << (double)want; return o.str(); }
      CppAD::vector< CppAD::AD<double> > aa(d + 1); for(size_t i = 0; i <= d; ++i) aa[i] = a[i]; CppAD::AD<double> az = z; if( ! (std::fabs(CppAD::Value(CppAD::Poly(q, aa, az)) - want) <= 1e-12 * (double)scale + 1e-300) ) return "Poly with AD elements";
      std::vector<double> b(d + 1); for(size_t i = 0; i <= d; ++i) b[i] = a[i]; if( CppAD::Poly(q, b, z) != got ) return "Poly changes with the vector type"; return "";
   }
   if( k == 1 ) {
      int n = R.below(R.coin() ? 9 : 60) - R.below(30); double x = R.below(3) == 0 ? double(R.below(7) - 3) : R.uni(-1.4, 1.4); if( std::fabs(x) < 0.2 && n < 0 ) x = 0.7; if( n > 40 || n < -40 ) n = 7;
      ld w = 1; for(int i = 0; i < std::abs(n); ++i) w *= x; if( n < 0 ) w = 1 / w;
      double g = CppAD::pow<double>(x, n); if( ! (std::fabs(g - w) <= 1e-13 * fabsl(w)) ) { o << "pow(" << x << ", " << n << ") is " << g << ", required " << (double)w; return o.str(); }
      CppAD::AD<double> ax = x; double h = CppAD::Value(CppAD::pow(ax, n)); if( ! (std::fabs(h - w) <= 1e-12 * fabsl(w)) ) { o << "AD pow(" << x << ", " << n << ") is " << h << ", required " << (double)w; return o.str(); }
      std::complex<double> c(x, R.uni(0.3, 1)), p(1); if( std::abs(n) < 12 ) { std::complex<double> v(1); for(int i = 0; i < std::abs(n); ++i) v *= c; if( n < 0 ) v = 1.0 / v; p = CppAD::pow(c, n); if( std::abs(p - v) > 1e-11 * std::abs(v) ) { o << "complex pow exponent " << n; return o.str(); } }
      return "";
   }
   size_t n = 1 + R.below(5), m = R.below(4); CppAD::vector<double> A(n * n), B(n * m), X(n * m); bool sing = R.below(5) == 0;
   bool small = R.coin(); for(size_t i = 0; i < n * n; ++i) A[i] = R.below(4) == 0 ? 0.0 : small ? double(R.below(5) - 2) : R.uni(-2, 2); for(size_t i = 0; i < n * m; ++i) B[i] = R.uni(-2, 2);
   if( sing ) { size_t r = R.below(n); if( R.coin() || n == 1 ) for(size_t j = 0; j < n; ++j) A[r * n + j] = 0; else for(size_t j = 0; j < n; ++j) A[j * n + r] = 0; }
   o << "n=" << n << " m=" << m << " A=["; for(size_t i = 0; i < n * n; ++i) o << A[i] << " "; o << "] "; note(o.str());
   // determinant by expansion over permutations
   std::vector<size_t> p(n); for(size_t i = 0; i < n; ++i) p[i] = i; ld det = 0, mag = 0; do { ld t = 1; int sg = 1; for(size_t i = 0; i < n; ++i) { t *= A[i * n + p[i]]; for(size_t j = i + 1; j < n; ++j) if( p[i] > p[j] ) sg = -sg; } det += sg * t; mag += fabsl(t); } while( std::next_permutation(p.begin(), p.end()) );
   double logdet = 0; CppAD::vector<double> A0(A), B0(B); int sg = CppAD::LuSolve(n, m, A, B, X, logdet);
   for(size_t i = 0; i < n * n; ++i) if( A[i] != A0[i] ) return "LuSolve changes the matrix"; for(size_t i = 0; i < n * m; ++i) if( B[i] != B0[i] ) return "LuSolve changes the right hand side";
   if( sing ) { if( sg != 0 ) return "LuSolve does not report a singular matrix"; if( logdet != 0 ) return "LuSolve: logdet of a singular matrix"; return ""; }
   if( fabsl(det) < 1e-3 ) return "";
   if( sg != (det > 0 ? 1 : -1) ) { o << "sign of the determinant is " << sg << ", determinant is " << (double)det; return o.str(); }
   if( std::fabs(logdet - (double)logl(fabsl(det))) > 1e-8 ) { o << "logdet is " << logdet << ", required " << (double)logl(fabsl(det)); return o.str(); }
   for(size_t c = 0; c < m; ++c) for(size_t i = 0; i < n; ++i) { ld r = -B[i * m + c], sc = 1; for(size_t j = 0; j < n; ++j) { r += (ld)A[i * n + j] * X[j * m + c]; sc += fabsl((ld)A[i * n + j] * X[j * m + c]); } if( ! (fabsl(r) < 1e-9 * sc / std::min((ld)1, fabsl(det)) ) ) { o << "residual " << (double)r << " in row " << i << " column " << c; return o.str(); } }
   // factorization: L * U = A with permuted rows and columns
   CppAD::vector<size_t> ip(n), jp(n); CppAD::vector<double> LU(A); int s2 = CppAD::LuFactor(ip, jp, LU); if( s2 == 0 ) return "LuFactor reports singular";
   std::vector<char> si(n, 0), sj(n, 0); for(size_t i = 0; i < n; ++i) { if( ip[i] >= n || si[ip[i]] || jp[i] >= n || sj[jp[i]] ) return "LuFactor: not a permutation"; si[ip[i]] = sj[jp[i]] = 1; }
   for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) { ld t = 0; for(size_t q = 0; q < n; ++q) { ld l = q <= i ? LU[ip[i] * n + jp[q]] : 0, u = q < j ? LU[ip[q] * n + jp[j]] : q == j ? 1 : 0; t += l * u; } if( fabsl(t - A[ip[i] * n + jp[j]]) > 1e-10 ) return "LuFactor: product of the factors"; }
   { CppAD::vector<double> C(B); if( m ) { CppAD::LuInvert(ip, jp, LU, C); for(size_t i = 0; i < n * m; ++i) if( std::fabs(C[i] - X[i]) > 1e-9 * (1 + std::fabs(X[i])) ) return "LuInvert"; } }
   { double ratio; CppAD::vector<size_t> iq(n), jq(n); CppAD::vector< CppAD::AD<double> > L2(n * n); for(size_t i = 0; i < n * n; ++i) L2[i] = A[i]; CppAD::AD<double> ar; int s3 = CppAD::LuRatio(iq, jq, L2, ar); (void)ratio; if( s3 != s2 ) return "LuRatio: sign"; for(size_t i = 0; i < n; ++i) if( iq[i] != ip[i] || jq[i] != jp[i] ) return "LuRatio: pivots"; for(size_t i = 0; i < n * n; ++i) if( std::fabs(CppAD::Value(L2[i]) - LU[i]) > 1e-12 ) return "LuRatio: factors"; if( std::fabs(CppAD::Value(ar) - 1) > 1e-12 ) return "LuRatio: ratio at the pivots of a new factorization"; }
   return "";
}
static std::string one_(const char* mode, unsigned long long seed) {
   Rng R(seed); std::string m(mode), s; H.str("");
   ++n_eval; ++n_nontriv;
   if( m == "setvec" ) { s = R.coin() ? setvec<CppAD::local::sparse::pack_setvec>(R, "pack_setvec") : setvec<CppAD::local::sparse::list_setvec>(R, "list_setvec"); if( R.below(4) == 0 && s.empty() ) s = setvec< CppAD::local::sparse::size_setvec<CppAD::addr_t> >(R, "size_setvec<addr_t>"); }
   else if( m == "vector" ) { switch( R.below(7) ) { case 0: s = cppvec<double>(R, "vector<double>"); break; case 1: s = cppvec<Counted>(R, "vector<Counted>"); break; case 2: s = podvec< pod_vector<int>, int >(R, "pod_vector<int>"); break; case 3: s = podvec< pod_vector_maybe<double>, double >(R, "pod_vector_maybe<double>"); break; case 4: s = podvec< pod_vector_maybe<Counted>, Counted >(R, "pod_vector_maybe<Counted>"); break; case 5: s = podvec< pod_vector<unsigned char>, unsigned char >(R, "pod_vector<unsigned char>"); break; default: s = vecbool(R); } }
   else if( m == "alloc" ) s = alloc(R);
   else if( m == "sort" ) s = sorting(R);
   else if( m == "numeric" ) s = numeric(R);
   else s = "unknown mode";
   sample(hist().substr(0, 200));
   return s.empty() ? s : s + " after: " + hist();
}
static void on_error(bool known, int line, const char* file, const char* exp, const char* msg) { printf("FAIL\tassert\t0\tassertion %s %s line %d of %s after: %s\nDONE\t1\t1\t1\n", exp, msg, line, file, hist().c_str()); fflush(stdout); _exit(0); }
static std::string one(const char* mode, unsigned long long seed) {
   static CppAD::ErrorHandler handler(on_error);
   return one_(mode, seed);
}
