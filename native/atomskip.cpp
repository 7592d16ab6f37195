// Atomic function whose arguments are used in only one branch of conditional expressions, optimized with conditional skip: same values and
// derivatives as the recording that is not optimized (the coefficients that are not specified start as nan).
# define PROG_ATOMIC
# include "prog.hpp"
# include "main.hpp"
typedef CppAD::AD<double> A;
static std::string one(const char*, unsigned long long seed) {
   Rng R(seed); int n = 4; dv x0; for(int i = 0; i < n; ++i) x0.push_back(R.uni(-1, 1));
   int code = R.below(int(af::table().size())) + 8 * R.below(af::nface); const af::Fun& F = af::table()[code % 8];
   std::vector<A> ax(x0.begin(), x0.end()); CppAD::Independent(ax);
   std::vector<A> pool(ax.begin(), ax.end()), arg; int np = 1 + R.below(3);
   for(int i = 0; i < np; ++i) { A u = pool[R.below(int(pool.size()))], v = pool[R.below(int(pool.size()))]; pool.push_back(R.coin() ? exp(u) * v : sin(u) + v); }
   for(size_t j = 0; j < F.n; ++j) { int k = R.below(3) ? int(pool.size()) - 1 - R.below(np) : R.below(int(pool.size())); arg.push_back(pool[k]); }
   std::vector<A> z = af::apply(code, arg); A s = z[R.below(int(z.size()))];
   int nc = 1 + R.below(2); std::vector<A> ay;
   for(int c = 0; c < nc; ++c) { A t = pool[pool.size() - 1 - R.below(np)] * ax[R.below(n)], e = R.coin() ? A(0.5) : cos(ax[R.below(n)]); if( R.coin() ) std::swap(t, e); s += CppAD::CondExpLt(ax[R.below(n)], ax[R.below(n)] + R.uni(-1, 1), t, e); }
   ay.push_back(s); if( R.coin() ) ay.push_back(z[R.below(int(z.size()))]);
   CppAD::ADFun<double> f; f.Dependent(ax, ay); f.check_for_nan(false); CppAD::ADFun<double> g; g = f; g.check_for_nan(false);
   g.optimize(); af::optimized() = true; poison(g, 3, 0);
   std::ostringstream o; o.precision(17); ++n_eval; size_t m = ay.size();
   for(int t = 0; t < 3; ++t) {
      dv x = x0; if( t ) for(auto& v : x) v = R.uni(-1, 1);
      dv y = f.Forward(0, x), y2 = g.Forward(0, x), d(n), w(m * 2); for(auto& v : d) v = R.uni(-1, 1); for(auto& v : w) v = R.uni(-1, 1);
      dv d1 = f.Forward(1, d), d2 = g.Forward(1, d), r1 = f.Reverse(2, w), r2 = g.Reverse(2, w);
      auto cmp = [&](const dv& a, const dv& b, const char* s) { for(size_t i = 0; i < a.size(); ++i) if( o.str().empty() && ! (std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::fabs(a[i]))) ) o << s << " " << i << " of the optimized recording is " << b[i] << ", before it was " << a[i] << "; atomic function " << code << " seed " << seed << " x=" << vs(x); };
      cmp(y, y2, "value"); cmp(d1, d2, "forward derivative"); cmp(r1, r2, "reverse derivative"); if( ! o.str().empty() ) return o.str();
   }
   ++n_nontriv; return "";
}
