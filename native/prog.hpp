// Random straight line programs evaluated by three independent scalars:
//   CppAD::AD<double> (the code under test), double, and truncated Taylor series over long double or over dual
//   numbers (the oracle; its recurrences are derived from f'(x) x' only and share no code with CppAD).
# pragma once
# include <cppad/cppad.hpp>
# include <cstdio>
# include <cstdlib>
# include <cmath>
# include <vector>
# include <string>
# include <sstream>
# include <set>
# include <map>
# include <algorithm>
typedef long double ld;
struct Rng {
   unsigned long long s;
   explicit Rng(unsigned long long x) : s(x * 0xD6E8FEB86659FD93ull + 0x1234567ull) { s = next(); s ^= next() << 7; next(); }
   unsigned long long next() {
      unsigned long long z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
   }
   int below(int n) { return n <= 0 ? 0 : int(next() % (unsigned long long)(n)); }
   double uni() { return double(next() >> 11) / 9007199254740992.0; }
   double uni(double a, double b) { return a + (b - a) * uni(); }
   bool coin() { return next() & 1; }
};
// ------------------------------------------------------------------------------------------- dual numbers
namespace orc {
extern int ndir;
const int maxdir = 40;
struct Dual {
   ld v; ld g[maxdir];
   Dual() : v(0) { for(int i = 0; i < maxdir; ++i) g[i] = 0; }
   Dual(double x) : v(x) { for(int i = 0; i < maxdir; ++i) g[i] = 0; }
   Dual(ld x) : v(x) { for(int i = 0; i < maxdir; ++i) g[i] = 0; }
   Dual(int x) : v(x) { for(int i = 0; i < maxdir; ++i) g[i] = 0; }
};
inline Dual operator+(const Dual& a, const Dual& b) { Dual r; r.v = a.v + b.v; for(int i = 0; i < ndir; ++i) r.g[i] = a.g[i] + b.g[i]; return r; }
inline Dual operator-(const Dual& a, const Dual& b) { Dual r; r.v = a.v - b.v; for(int i = 0; i < ndir; ++i) r.g[i] = a.g[i] - b.g[i]; return r; }
inline Dual operator*(const Dual& a, const Dual& b) { Dual r; r.v = a.v * b.v; for(int i = 0; i < ndir; ++i) r.g[i] = a.g[i] * b.v + a.v * b.g[i]; return r; }
inline Dual operator/(const Dual& a, const Dual& b) { Dual r; r.v = a.v / b.v; for(int i = 0; i < ndir; ++i) r.g[i] = (a.g[i] - r.v * b.g[i]) / b.v; return r; }
inline Dual chain(const Dual& a, ld v, ld d) { Dual r; r.v = v; for(int i = 0; i < ndir; ++i) r.g[i] = a.g[i] == 0 ? 0 : d * a.g[i]; return r; }
inline ld val(const Dual& a) { return a.v; }
inline ld val(ld a) { return a; }
inline bool exact0(const Dual& a) { if(a.v != 0) return false; for(int i = 0; i < ndir; ++i) if(a.g[i] != 0) return false; return true; }
inline bool exact0(ld a) { return a == 0; }
const ld two_over_sqrtpi = 1.1283791670955125738961589031215451716881L;
// order zero functions of the coefficient field: value and first derivative
# define ORC_FUN(name, V, D) inline ld name##0(ld x) { return V; } inline Dual name##0(const Dual& a) { ld x = a.v; return chain(a, V, D); }
ORC_FUN(exp, std::exp(x), std::exp(x))
ORC_FUN(expm1, std::expm1(x), std::exp(x))
ORC_FUN(log, std::log(x), 1 / x)
ORC_FUN(log1p, std::log1p(x), 1 / (1 + x))
ORC_FUN(sqrt, std::sqrt(x), 1 / (2 * std::sqrt(x)))
ORC_FUN(sin, std::sin(x), std::cos(x))
ORC_FUN(cos, std::cos(x), -std::sin(x))
ORC_FUN(tan, std::tan(x), 1 / (std::cos(x) * std::cos(x)))
ORC_FUN(sinh, std::sinh(x), std::cosh(x))
ORC_FUN(cosh, std::cosh(x), std::sinh(x))
ORC_FUN(tanh, std::tanh(x), 1 / (std::cosh(x) * std::cosh(x)))
ORC_FUN(asin, std::asin(x), 1 / std::sqrt((1 - x) * (1 + x)))
ORC_FUN(acos, std::acos(x), -1 / std::sqrt((1 - x) * (1 + x)))
ORC_FUN(atan, std::atan(x), 1 / (1 + x * x))
ORC_FUN(asinh, std::asinh(x), 1 / std::sqrt(1 + x * x))
ORC_FUN(acosh, std::acosh(x), 1 / std::sqrt((x - 1) * (x + 1)))
ORC_FUN(atanh, std::atanh(x), 1 / ((1 - x) * (1 + x)))
ORC_FUN(erf, std::erf(x), two_over_sqrtpi * std::exp(-x * x))
ORC_FUN(erfc, std::erfc(x), -two_over_sqrtpi * std::exp(-x * x))
// ------------------------------------------------------------------------------------------- Taylor series
extern int order;   // highest order carried
template <class S> struct Jet {
   std::vector<S> c;
   Jet() : c(order + 1, S(0)) {}
   Jet(double v) : c(order + 1, S(0)) { c[0] = S(v); }
   Jet(int v) : c(order + 1, S(0)) { c[0] = S(v); }
   Jet& operator+=(const Jet& b) { *this = *this + b; return *this; }
   Jet& operator-=(const Jet& b) { *this = *this - b; return *this; }
   Jet& operator*=(const Jet& b) { *this = *this * b; return *this; }
   Jet& operator/=(const Jet& b) { *this = *this / b; return *this; }
};
# define JT template <class S> inline Jet<S>
# define JA const Jet<S>&
JT operator+(JA a, JA b) { Jet<S> r; for(int k = 0; k <= order; ++k) r.c[k] = a.c[k] + b.c[k]; return r; }
JT operator-(JA a, JA b) { Jet<S> r; for(int k = 0; k <= order; ++k) r.c[k] = a.c[k] - b.c[k]; return r; }
JT operator-(JA a) { Jet<S> r; for(int k = 0; k <= order; ++k) r.c[k] = S(0) - a.c[k]; return r; }
JT operator+(JA a) { return a; }
JT operator*(JA a, JA b) { Jet<S> r; for(int k = 0; k <= order; ++k) { S s(0); for(int i = 0; i <= k; ++i) s = s + a.c[i] * b.c[k - i]; r.c[k] = s; } return r; }
JT operator/(JA a, JA b) { Jet<S> r; for(int k = 0; k <= order; ++k) { S s = a.c[k]; for(int i = 1; i <= k; ++i) s = s - b.c[i] * r.c[k - i]; r.c[k] = s / b.c[0]; } return r; }
// z with z(0) = z0 and z' = g x'
template <class S> Jet<S> integ(const S& z0, JA g, JA x) {
   Jet<S> z; z.c[0] = z0;
   for(int k = 1; k <= order; ++k) { S s(0); for(int i = 1; i <= k; ++i) s = s + S(i) * x.c[i] * g.c[k - i]; z.c[k] = s / S(k); }
   return z;
}
JT exp(JA x) {
   Jet<S> z; z.c[0] = exp0(x.c[0]);
   for(int k = 1; k <= order; ++k) { S s(0); for(int i = 1; i <= k; ++i) s = s + S(i) * x.c[i] * z.c[k - i]; z.c[k] = s / S(k); }
   return z;
}
JT expm1(JA x) { Jet<S> z = exp(x); z.c[0] = expm10(x.c[0]); return z; }
JT log(JA x) { return integ(log0(x.c[0]), Jet<S>(1) / x, x); }
JT log1p(JA x) { return integ(log1p0(x.c[0]), Jet<S>(1) / (Jet<S>(1) + x), x); }
JT sqrt(JA x) {
   Jet<S> z; z.c[0] = sqrt0(x.c[0]);
   for(int k = 1; k <= order; ++k) { S s = x.c[k]; for(int i = 1; i < k; ++i) s = s - z.c[i] * z.c[k - i]; z.c[k] = s / (S(2) * z.c[0]); }
   return z;
}
template <class S> void sincos(JA x, Jet<S>& s, Jet<S>& c, int sg) {
   s = Jet<S>(); c = Jet<S>();
   if( sg < 0 ) { s.c[0] = sin0(x.c[0]); c.c[0] = cos0(x.c[0]); } else { s.c[0] = sinh0(x.c[0]); c.c[0] = cosh0(x.c[0]); }
   for(int k = 1; k <= order; ++k) {
      S p(0), q(0);
      for(int i = 1; i <= k; ++i) { p = p + S(i) * x.c[i] * c.c[k - i]; q = q + S(i) * x.c[i] * s.c[k - i]; }
      s.c[k] = p / S(k); c.c[k] = S(sg) * q / S(k);
   }
}
JT sin(JA x) { Jet<S> s, c; sincos(x, s, c, -1); return s; }
JT cos(JA x) { Jet<S> s, c; sincos(x, s, c, -1); return c; }
JT sinh(JA x) { Jet<S> s, c; sincos(x, s, c, 1); return s; }
JT cosh(JA x) { Jet<S> s, c; sincos(x, s, c, 1); return c; }
JT tan(JA x) { Jet<S> s, c; sincos(x, s, c, -1); return s / c; }
JT tanh(JA x) { Jet<S> s, c; sincos(x, s, c, 1); return s / c; }
JT asin(JA x) { return integ(asin0(x.c[0]), Jet<S>(1) / sqrt(Jet<S>(1) - x * x), x); }
JT acos(JA x) { return integ(acos0(x.c[0]), Jet<S>(-1) / sqrt(Jet<S>(1) - x * x), x); }
JT atan(JA x) { return integ(atan0(x.c[0]), Jet<S>(1) / (Jet<S>(1) + x * x), x); }
JT asinh(JA x) { return integ(asinh0(x.c[0]), Jet<S>(1) / sqrt(Jet<S>(1) + x * x), x); }
JT acosh(JA x) { return integ(acosh0(x.c[0]), Jet<S>(1) / sqrt(x * x - Jet<S>(1)), x); }
JT atanh(JA x) { return integ(atanh0(x.c[0]), Jet<S>(1) / (Jet<S>(1) - x * x), x); }
JT erf(JA x) { Jet<S> t; t.c[0] = S(two_over_sqrtpi); return integ(erf0(x.c[0]), t * exp(-(x * x)), x); }
JT erfc(JA x) { Jet<S> t; t.c[0] = S(-two_over_sqrtpi); return integ(erfc0(x.c[0]), t * exp(-(x * x)), x); }
JT fabs(JA x) { return val(x.c[0]) < 0 ? -x : x; }
JT sign(JA x) { return Jet<S>(val(x.c[0]) > 0 ? 1.0 : val(x.c[0]) < 0 ? -1.0 : 0.0); }
JT atan2(JA y, JA x) { ld a = val(x.c[0]), b = val(y.c[0]); // angle of (x,y)
   Jet<S> z; if( std::fabs(a) > std::fabs(b) ) z = atan(y / x); else z = Jet<S>(0) - atan(x / y);
   z.c[0] = z.c[0] - S(val(z.c[0])) + S(std::atan2(b, a)); return z; }
JT azmul(JA a, JA b) { return a * b; }
JT pow(JA x, JA y) {
   bool cst = true; for(int k = 1; k <= order; ++k) if( ! exact0(y.c[k]) ) cst = false;
   { S t = y.c[0]; if( ! exact0(t - S(val(t))) ) cst = false; }
   ld e = val(y.c[0]);
   if( cst && e == std::floor(e) && std::fabs(e) < 20 ) {
      Jet<S> r(1); int n = int(std::fabs(e)); for(int i = 0; i < n; ++i) r = r * x;
      return e < 0 ? Jet<S>(1) / r : r;
   }
   return exp(y * log(x));
}
JT pow(JA x, int n) { Jet<S> r(1); int m = n < 0 ? -n : n; for(int i = 0; i < m; ++i) r = r * x; return n < 0 ? Jet<S>(1) / r : r; }
// comparisons treat values that differ only by rounding as equal (programs keep other differences above 1e-6)
inline ld cmp(ld a, ld b) { ld d = a - b; return std::fabs(d) < 1e-8L ? 0 : d; }
# define ORC_CE(N, OP) JT CondExp##N(JA l, JA r, JA t, JA f) { return cmp(val(l.c[0]), val(r.c[0])) OP 0 ? t : f; }
ORC_CE(Lt, <) ORC_CE(Le, <=) ORC_CE(Eq, ==) ORC_CE(Ge, >=) ORC_CE(Gt, >)
# define ORC_CMP(OP) template <class S> inline bool operator OP(JA a, JA b) { return cmp(val(a.c[0]), val(b.c[0])) OP 0; }
ORC_CMP(<) ORC_CMP(<=) ORC_CMP(==) ORC_CMP(>=) ORC_CMP(>) ORC_CMP(!=)
} // orc
// ------------------------------------------------------------------------------------------- programs
enum Opc { ADD, SUB, MUL, DIV, POW, AZMUL, ADDQ, SUBQ, MULQ, DIVQ, NEG, UPLUS, EXP, EXPM1, LOG, LOG1P, SQRT, SIN, COS, TAN,
   SINH, COSH, TANH, ASIN, ACOS, ATAN, ASINH, ACOSH, ATANH, ERF, ERFC, ABS, SIGN, ATAN2, CLT, CLE, CEQ, CGE, CGT, VECAD, DISC,
   BLT, BLE, BEQ, BGE, BGT, BNE, CONST, POWI, ADDC, SUBC, CSUB, MULC, DIVC, CDIV, NOPC, ATOM, AOUT };   // ATOM: call of an atomic function (its first result), AOUT: another result of the call
static const char* opname[] = { "add","sub","mul","div","pow","azmul","addq","subq","mulq","divq","neg","uplus","exp","expm1","log","log1p","sqrt","sin","cos","tan",
   "sinh","cosh","tanh","asin","acos","atan","asinh","acosh","atanh","erf","erfc","abs","sign","atan2","condlt","condle","condeq","condge","condgt","vecad","discrete",
   "boollt","boolle","booleq","boolge","boolgt","boolne","const","powi","addc","subc","csub","mulc","divc","cdiv","","atomic","result" };
# ifdef PROG_ATOMIC
# include "atomfun.hpp"
const bool prog_atomic = true;
# else
namespace af { inline std::string& error() { static std::string e; return e; } inline bool& optimized() { static bool b = false; return b; } }
const bool prog_atomic = false;
# endif
struct Ins { int op, a, b, c, d; double imm; };
// failure reported by a case, or wrong arguments that an atomic function was given
template <class F> std::string atomic_case(F one) { af::error().clear(); af::optimized() = false; std::string d = one(); if( ! af::error().empty() ) d = "an atomic function was given wrong arguments: " + af::error() + "; " + d; return d; }
struct Prog {
   int nx, nd; std::vector<Ins> ins; std::vector<int> out;
   std::vector<char> par;          // slot is certainly a parameter
   std::vector<char> cmp;          // recorded outcome of the boolean comparisons
   std::string str() const {
      std::ostringstream o; o << "nx=" << nx << " nd=" << nd << " :";
      for(size_t i = 0; i < ins.size(); ++i) { const Ins& I = ins[i]; o << " v" << nx + nd + (int)i << "=" << opname[I.op] << "(" << I.a << "," << I.b << "," << I.c << "," << I.d << "," << I.imm << ")"; }
      o << " out="; for(size_t i = 0; i < out.size(); ++i) o << (i ? "," : "") << out[i];
      return o.str();
   }
};
inline double disc_fun(const double& x) { return std::floor(x + 0.25); }
CPPAD_DISCRETE_FUNCTION(double, disc_fun)
struct EvalInfo { std::vector<char> cmp; const std::vector<char>* force; size_t changes; EvalInfo() : force(0), changes(0) {} };
inline bool note(EvalInfo& e, bool b) {
   size_t i = e.cmp.size(); e.cmp.push_back(b);
   if( e.force ) { if( bool((*e.force)[i]) != b ) ++e.changes; return (*e.force)[i]; }
   return b;
}
// scalar specific parts: discrete function, vector lookup
namespace sp {
inline double disc(double x) { return disc_fun(x); }
inline CppAD::AD<double> disc(const CppAD::AD<double>& x) { return disc_fun(x); }
template <class S> orc::Jet<S> disc(const orc::Jet<S>& x) { return orc::Jet<S>(disc_fun(double(orc::val(x.c[0])))); }
template <class T> T look(const T& a, const T& b, const T& c, const T& d, int imm, size_t i, size_t j) {
   T v[3] = {a, b, c}; v[i] = d; if(imm & 1) v[2] = a; if(imm & 2) v[1] = T(1.5); return v[j];
}
inline double vecad(double a, double b, double c, double d, int imm, double i, double j) { if( ! (std::isfinite(i) && std::isfinite(j)) ) return std::numeric_limits<double>::quiet_NaN(); return look(a, b, c, d, imm, size_t(i), size_t(j)); }
template <class S> orc::Jet<S> vecad(const orc::Jet<S>& a, const orc::Jet<S>& b, const orc::Jet<S>& c, const orc::Jet<S>& d, int imm, const orc::Jet<S>& i, const orc::Jet<S>& j) {
   if( ! (std::isfinite((double)orc::val(i.c[0])) && std::isfinite((double)orc::val(j.c[0]))) ) return orc::Jet<S>(std::numeric_limits<double>::quiet_NaN());
   return look(a, b, c, d, imm, size_t(orc::val(i.c[0])), size_t(orc::val(j.c[0]))); }
inline CppAD::AD<double> vecad(const CppAD::AD<double>& a, const CppAD::AD<double>& b, const CppAD::AD<double>& c, const CppAD::AD<double>& d, int imm,
   const CppAD::AD<double>& i, const CppAD::AD<double>& j) {
   using CppAD::AD; CppAD::VecAD<double> v(3);
   v[AD<double>(0)] = a; v[AD<double>(1)] = b; v[AD<double>(2)] = c;
   v[i] = d;
   if(imm & 1) v[AD<double>(2)] = a;
   if(imm & 2) v[AD<double>(1)] = 1.5;
   return v[j];
}
}
// constants: for the recorded scalar also objects that were variables or dynamic parameters of an earlier recording
namespace sp {
typedef std::map< double, std::pair< CppAD::AD<double>, CppAD::AD<double> > > Pool;
inline Pool& pool() { static Pool p; return p; }
inline void prepare(std::set<double> s) {
   pool().clear(); if( s.empty() ) return; std::vector< CppAD::AD<double> > x(s.begin(), s.end()), d(s.begin(), s.end()), y(1);
   CppAD::Independent(x, 0, true, d); y[0] = x[0] * d[0]; CppAD::ADFun<double> g(x, y);
   size_t i = 0; for(double v : s) { pool()[v] = { x[i], d[i] }; ++i; }
}
template <class T> T konst(double v, size_t i) { return T(v); }
template <> inline CppAD::AD<double> konst< CppAD::AD<double> >(double v, size_t i) { auto it = pool().find(v); if( i % 3 == 0 || it == pool().end() ) return CppAD::AD<double>(v); return i % 3 == 1 ? it->second.first : it->second.second; }
}
// index operand of a vector lookup: a value in (0,2)
template <class T> T vindex(const T& x) { using std::sin; return T(1.0) + T(0.99) * sin(T(3.0) * x); }
template <class T> void eval(const Prog& P, const std::vector<T>& x, const std::vector<T>& dyn, std::vector<T>& v, EvalInfo& info) {
   using std::exp; using std::log; using std::sqrt; using std::sin; using std::cos; using std::tan; using std::sinh; using std::cosh; using std::tanh;
   using std::asin; using std::acos; using std::atan; using std::asinh; using std::acosh; using std::atanh; using std::erf; using std::erfc; using std::expm1; using std::log1p;
   using std::fabs; using std::pow; using std::atan2; using CppAD::sign; using CppAD::azmul; using CppAD::pow;
   using CppAD::CondExpLt; using CppAD::CondExpLe; using CppAD::CondExpEq; using CppAD::CondExpGe; using CppAD::CondExpGt;
   v.clear(); std::map< int, std::vector<T> > calls;
   for(size_t i = 0; i < x.size(); ++i) v.push_back(x[i]);
   for(size_t i = 0; i < dyn.size(); ++i) v.push_back(dyn[i]);
   for(size_t i = 0; i < P.ins.size(); ++i) {
      const Ins& I = P.ins[i]; T a, b, c, d;
      if( I.a >= 0 ) a = v[I.a];
      if( I.b >= 0 ) b = v[I.b];
      if( I.c >= 0 ) c = v[I.c];
      if( I.d >= 0 ) d = v[I.d];
      T r;
      switch( I.op ) {
      case ADD: r = a + b; break;
      case SUB: r = a - b; break;
      case MUL: r = a * b; break;
      case DIV: r = a / b; break;
      case POW: r = pow(a, b); break;
      case AZMUL: r = azmul(a, b); break;
      case ADDQ: r = a; r += b; break;
      case SUBQ: r = a; r -= b; break;
      case MULQ: r = a; r *= b; break;
      case DIVQ: r = a; r /= b; break;
      case NEG: r = -a; break;
      case UPLUS: r = +a; break;
      case EXP: r = exp(a); break;
      case EXPM1: r = expm1(a); break;
      case LOG: r = log(a); break;
      case LOG1P: r = log1p(a); break;
      case SQRT: r = sqrt(a); break;
      case SIN: r = sin(a); break;
      case COS: r = cos(a); break;
      case TAN: r = tan(a); break;
      case SINH: r = sinh(a); break;
      case COSH: r = cosh(a); break;
      case TANH: r = tanh(a); break;
      case ASIN: r = asin(a); break;
      case ACOS: r = acos(a); break;
      case ATAN: r = atan(a); break;
      case ASINH: r = asinh(a); break;
      case ACOSH: r = acosh(a); break;
      case ATANH: r = atanh(a); break;
      case ERF: r = erf(a); break;
      case ERFC: r = erfc(a); break;
      case ABS: r = fabs(a); break;
      case SIGN: r = sign(a); break;
      case ATAN2: r = atan2(a, b); break;
      case CLT: r = CondExpLt(a, b, c, d); break;
      case CLE: r = CondExpLe(a, b, c, d); break;
      case CEQ: r = CondExpEq(a, b, c, d); break;
      case CGE: r = CondExpGe(a, b, c, d); break;
      case CGT: r = CondExpGt(a, b, c, d); break;
      case VECAD: r = sp::vecad(a, b, c, d, int(I.imm), vindex(a), vindex(d)); break;
      case DISC: r = sp::disc(a); break;
      case BLT: r = note(info, a < b) ? c : d; break;
      case BLE: r = note(info, a <= b) ? c : d; break;
      case BEQ: r = note(info, a == b) ? c : d; break;
      case BGE: r = note(info, a >= b) ? c : d; break;
      case BGT: r = note(info, a > b) ? c : d; break;
      case BNE: r = note(info, a != b) ? c : d; break;
      case CONST: r = sp::konst<T>(I.imm, i); break;
      case POWI: r = pow(a, int(I.imm)); break;
      case ADDC: r = a + I.imm; break;
      case SUBC: r = a - I.imm; break;
      case CSUB: r = I.imm - a; break;
      case MULC: r = I.imm * a; break;
      case DIVC: r = a / I.imm; break;
      case CDIV: r = I.imm / a; break;
# ifdef PROG_ATOMIC
      case ATOM: calls[int(v.size())] = af::apply(int(I.imm), std::vector<T>{a, b, c, d}); r = calls[int(v.size())][0]; break;
      case AOUT: r = calls[I.a][size_t(I.imm)]; break;
# endif
      }
      v.push_back(r);
   }
}
// implicit double operand for the oracle series
namespace orc {
JT operator+(JA a, double b) { return a + Jet<S>(b); }
JT operator-(JA a, double b) { return a - Jet<S>(b); }
JT operator-(double b, JA a) { return Jet<S>(b) - a; }
JT operator*(double b, JA a) { return Jet<S>(b) * a; }
JT operator/(JA a, double b) { return a / Jet<S>(b); }
JT operator/(double b, JA a) { return Jet<S>(b) / a; }
}
struct GenOpt { int nx, nd, len, nout; bool cmp, vec, disc, cond, kinks; GenOpt() : nx(2), nd(1), len(8), nout(2), cmp(true), vec(true), disc(true), cond(true), kinks(true) {} };
inline bool indomain(int op, double a, double b) {
   switch( op ) {
   case DIV: case DIVQ: return std::fabs(b) > 0.2;
   case CDIV: return std::fabs(a) > 0.2;
   case POW: return a > 0.2 || (a < -0.2 && b == std::floor(b) && std::fabs(b) < 4);
   case POWI: return true;
   case LOG: case SQRT: return a > 0.2;
   case LOG1P: return a > -0.7;
   case ASIN: case ACOS: case ATANH: return std::fabs(a) < 0.8;
   case ACOSH: return a > 1.2;
   case TAN: return std::fabs(std::cos(a)) > 0.3;
   case EXP: case EXPM1: case SINH: case COSH: return std::fabs(a) < 2.5;
   case ATAN2: return std::fabs(a) + std::fabs(b) > 0.5 && (b > 0 || std::fabs(a) > 1e-3) && std::fabs(std::fabs(a) - std::fabs(b)) > 1e-3;
   default: return true;
   }
}
// a random program that is well conditioned at x, dyn
inline Prog generate(Rng& R, const GenOpt& G, const std::vector<double>& x, const std::vector<double>& dyn) {
   Prog P; P.nx = G.nx; P.nd = G.nd;
   std::vector<double> v; EvalInfo info;
   static const double consts[] = { 0.0, 1.0, 2.0, -1.0, 0.5, 3.0, 1.75, -2.0, 1e-9 };
   bool dup = R.below(4) == 0;
   std::vector<char>& par = P.par; par.assign(P.nx, 0); par.resize(P.nx + P.nd, 1);   // does the slot depend on no variable
   for(int tries = 0; (int)P.ins.size() < G.len && tries < 40 * G.len; ++tries) {
      Ins I; I.a = I.b = I.c = I.d = -1; I.imm = 0;
      int n = P.nx + P.nd + (int)P.ins.size();
      I.op = R.below(NOPC);
      if( R.below(3) == 0 ) { static const int arith[] = { ADD, SUB, MUL, DIV, MUL, POW, ADDQ, SUBQ, MULQ, DIVQ, AZMUL }; I.op = arith[R.below(11)]; }
# ifdef PROG_ATOMIC
      if( R.below(3) == 0 ) { // a call and some of its other results
         int k = R.below(int(af::table().size())); const af::Fun& F = af::table()[k]; I.op = ATOM; I.imm = k + 8 * R.below(af::nface);
         int* arg[] = { &I.a, &I.b, &I.c, &I.d }; for(size_t j = 0; j < F.n; ++j) { int z = R.below(4); *arg[j] = z == 0 && j > 0 ? *arg[R.below(int(j))] : z == 1 ? R.below(P.nx + P.nd) : R.below(n); }
         size_t k0 = P.ins.size(); P.ins.push_back(I); std::vector<size_t> which(1, 0);
         for(size_t i = 1; i < F.m(); ++i) if( R.below(3) ) { Ins J; J.op = AOUT; J.a = n; J.b = J.c = J.d = -1; J.imm = double(i); P.ins.push_back(J); which.push_back(i); }
         EvalInfo e; eval<double>(P, x, dyn, v, e); bool good = true; for(size_t i = size_t(n); i < v.size(); ++i) good = good && std::isfinite(v[i]) && std::fabs(v[i]) < 4.5;
         if( ! good ) { P.ins.resize(k0); continue; }
         for(size_t i : which) { bool q = true; for(auto& t : F.y[i]) for(int l : t.ix) q = q && par[*arg[l]] && I.imm < 16; par.push_back(q); }   // the oldest interface records variables for dynamic parameters
         continue;
      }
# endif
      if( I.op >= BLT && I.op <= BNE && ! G.cmp ) continue;
      if( I.op >= CLT && I.op <= CGT && ! G.cond ) continue;
      if( I.op == VECAD && ! G.vec ) continue;
      if( I.op == DISC && ! G.disc ) continue;
      if( (I.op == ABS || I.op == SIGN) && ! G.kinks ) continue;
      auto pick = [&]() { int k = R.below(3); if( k == 0 ) return R.below(P.nx + P.nd); if( k == 1 && n > 4 ) return n - 1 - R.below(4); return R.below(n); };
      I.a = pick();
      if( I.op <= DIVQ || I.op == ATAN2 || (I.op >= CLT && I.op <= VECAD) || (I.op >= BLT && I.op <= BNE) ) I.b = pick();
      if( (I.op >= CLT && I.op <= VECAD) || (I.op >= BLT && I.op <= BNE) ) { I.c = pick(); I.d = pick(); }
      if( I.op == POW && R.coin() ) for(int k = P.nx; k < n; ++k) if( par[k] && R.coin() ) { I.b = k; break; }
      if( dup && I.b >= 0 && R.below(3) == 0 ) I.b = I.a;
      if( I.op == VECAD ) I.imm = R.below(4);
      if( I.op == CONST ) { I.a = -1; I.imm = R.below(2) ? consts[R.below(9)] : R.uni(-2, 2); }
      if( I.op >= ADDC ) { I.imm = R.below(2) ? consts[R.below(8)] : R.uni(-2, 2); if( I.op == DIVC && std::fabs(I.imm) < 0.2 ) continue; }
      if( I.op == POWI ) { I.imm = R.below(7) - 2; }
      P.ins.push_back(I);
      EvalInfo e; eval<double>(P, x, dyn, v, e);
      double a = I.a >= 0 ? v[I.a] : 0, b = I.b >= 0 ? v[I.b] : 0, r = v.back();
      bool good = indomain(I.op, a, b) && std::isfinite(r) && std::fabs(r) < 4.5;
      if( I.op == POWI && I.imm < 0 && std::fabs(a) < 0.3 ) good = false;
      if( (I.op == ABS || I.op == SIGN) && std::fabs(a) < 1e-3 ) good = false;
      if( I.op == DISC ) { double t = a + 0.25 - std::floor(a + 0.25); if( t < 0.05 || t > 0.95 ) good = false; }
      if( I.op == VECAD ) { double s = 1 + 0.99 * std::sin(3 * a), t = 1 + 0.99 * std::sin(3 * v[I.d]); if( std::fabs(s - 1) < 0.05 || std::fabs(t - 1) < 0.05 ) good = false; }
      if( I.op == POW && a <= 0.2 && ! par[I.b] ) good = false;
      if( ! good ) { P.ins.pop_back(); continue; }
      bool q = I.op == CONST || I.op == SIGN || I.op == DISC;
      if( ! q ) q = (I.a < 0 || par[I.a]) && (I.b < 0 || par[I.b]) && (I.c < 0 || par[I.c]) && (I.d < 0 || par[I.d]);
      if( I.op == SIGN || I.op == DISC ) q = par[I.a];
      if( I.op == VECAD ) q = false;
      par.push_back(q);
   }
   int n = P.nx + P.nd + (int)P.ins.size();
   for(int i = 0; i < G.nout; ++i) P.out.push_back(i == 0 ? n - 1 : R.below(4) == 0 ? R.below(n) : n - 1 - R.below(std::min(n, 6)));
   return P;
}
inline double gen_x(Rng& R) {
   int k = R.below(8);
   if( k == 0 ) return 0.0;
   if( k == 1 ) return R.coin() ? 1.0 : -1.0;
   if( k == 2 ) return double(R.below(5) - 2);
   return R.uni(-2.0, 2.0);
}
// kinks: is some branch or nearly singular operation too close at (x, dyn)?
inline bool wellposed(const Prog& P, const std::vector<double>& x, const std::vector<double>& dyn, bool kink, bool opt = false) {
   auto leaf = [&](int k) { return k < P.nx + P.nd || P.ins[k - P.nx - P.nd].op == CONST; };   // optimize may reassociate sums
   // operations whose floating point result is the same in every evaluation; ties of others depend on roundoff
   std::vector<char> exact(P.nx + P.nd + P.ins.size(), 1);
   for(size_t i = 0; i < P.ins.size(); ++i) {
      const Ins& I = P.ins[i]; bool ok = I.op == CONST || I.op <= UPLUS || I.op == ABS || I.op == SIGN || I.op >= ADDC || (I.op >= CLT && I.op <= CGT);
      if( I.op == POW || I.op >= NOPC ) ok = false;
      for(int k : { I.a, I.b, I.c, I.d }) if( k >= 0 && k < P.nx + P.nd + (int)i && I.op != CONST ) ok = ok && exact[k];
      exact[P.nx + P.nd + i] = ok;
   }
   std::vector<double> v; EvalInfo e; if( P.cmp.size() ) e.force = &P.cmp; eval<double>(P, x, dyn, v, e);
   for(size_t i = 0; i < P.ins.size(); ++i) {
      const Ins& I = P.ins[i]; double a = I.a >= 0 ? v[I.a] : 0, b = I.b >= 0 ? v[I.b] : 0, r = v[P.nx + P.nd + i];
      if( ! std::isfinite(r) || std::fabs(r) > 50 ) return false;
      if( ! indomain(I.op, a, b) ) return false;
      if( I.op == POW && a <= 0.2 && ! P.par[I.b] ) return false;
      if( I.op == POWI && I.imm < 0 && std::fabs(a) < 0.3 ) return false;
      if( I.op == DISC ) { double t = a + 0.25 - std::floor(a + 0.25); if( t < 0.01 || t > 0.99 ) return false; }
      if( I.op == VECAD ) { double s = 1 + 0.99 * std::sin(3 * a), t = 1 + 0.99 * std::sin(3 * v[I.d]); if( std::fabs(s - 1) < 0.01 || std::fabs(t - 1) < 0.01 ) return false; }
      if( kink && (I.op == ABS || I.op == SIGN) && std::fabs(a) < 1e-3 ) return false;
      if( I.op >= CLT && I.op <= CGT ) { if( a == b && I.a != I.b && ! (exact[I.a] && exact[I.b]) ) return false; if( opt && a == b && ! (leaf(I.a) && leaf(I.b)) ) return false; if( a != b && std::fabs(a - b) < 1e-6 ) return false; }
      if( I.op >= BLT && I.op <= BNE ) { if( a == b && I.a != I.b && ! (exact[I.a] && exact[I.b]) ) return false; if( opt && a == b && ! (leaf(I.a) && leaf(I.b)) ) return false; if( a != b && std::fabs(a - b) < 1e-6 ) return false; }
   }
   return true;
}
// record the program with CppAD
typedef CppAD::AD<double> AD1;
inline void earlier(const Prog& P) { std::set<double> s; for(auto& I : P.ins) if( I.op == CONST ) s.insert(I.imm); sp::prepare(s); }
// coefficients of variables that are skipped are not specified: start from nan
template <class F> auto poison(F& f, size_t c, int) -> decltype((void) (f.taylor_[0] = 1.0)) { f.capacity_order(c); for(size_t i = 0; i < f.taylor_.size(); ++i) f.taylor_[i] = std::numeric_limits<double>::quiet_NaN(); }
template <class F> void poison(F& f, size_t c, long) {}
inline void record(Prog& P, const std::vector<double>& x0, const std::vector<double>& d0, CppAD::ADFun<double>& f, bool opt) {
   earlier(P);
   std::vector<AD1> ax(x0.begin(), x0.end()), ad(d0.begin(), d0.end()), v, ay;
   CppAD::Independent(ax, 0, true, ad);
   EvalInfo e; eval(P, ax, ad, v, e);
   P.cmp = e.cmp;
   for(size_t i = 0; i < P.out.size(); ++i) ay.push_back(v[P.out[i]]);
   f.Dependent(ax, ay);
   f.check_for_nan(false);
   if( opt ) { f.optimize(); af::optimized() = true; if( prog_atomic ) poison(f, 6, 0); }
}
struct Fail { std::string what; };
inline bool close(double got, ld want, ld scale, double tol) {
   if( ! std::isfinite((double)want) ) return true;
   return std::fabs((ld)got - want) <= tol * (scale + std::fabs(want) + 1);
}
extern long n_eval, n_nontriv;
template <class T> std::string vs(const std::vector<T>& x) { std::ostringstream o; o.precision(17); o << "["; for(size_t i = 0; i < x.size(); ++i) o << (i ? "," : "") << (double)x[i]; o << "]"; return o.str(); }
inline void report(const char* what, unsigned long long seed, const std::string& detail) {
   printf("FAIL\t%s\t%llu\t%s\n", what, seed, detail.c_str()); fflush(stdout);
}
