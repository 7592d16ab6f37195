// Native replay of the contracts of recording (C04), dynamic parameters (C05), comparisons (C12) and optimization (C09).
# include "prog.hpp"
# include "main.hpp"
using orc::Jet;
static std::string id(const Prog& P) { return P.str(); }
static bool mags(const std::vector<double>& v) { for(auto a : v) if( ! (std::fabs(a) < 1e4) ) return false; return true; }
// values of the program at (x, d) with the recorded outcomes of comparisons
static dv values(const Prog& P, const dv& x, const dv& d, bool force, size_t* changes = 0, std::vector<char>* outcome = 0) {
   std::vector<double> v; EvalInfo e; if( force ) e.force = &P.cmp; eval<double>(P, x, d, v, e);
   if( changes ) *changes = e.changes;
   if( outcome ) *outcome = e.cmp;
   dv y; for(int o : P.out) y.push_back(v[o]); return y;
}
static std::string differ(const dv& got, const dv& want, double tol, const char* what) {
   for(size_t i = 0; i < want.size(); ++i) if( ! close(got[i], want[i], 4, tol) ) { std::ostringstream o; o.precision(17); o << what << ": output " << i << " is " << got[i] << ", required " << want[i]; return o.str(); }
   return "";
}
// perturbed or special point where the program is well posed
static bool point(Rng& R, const Prog& P, const dv& x0, const dv& d0, dv& x, dv& d, bool opt) {
   for(int t = 0; t < 6; ++t) {
      x = x0; d = d0;
      int k = R.below(4);
      for(auto& v : x) if( k == 0 ) v = gen_x(R); else if( R.coin() ) v += R.uni(-0.5, 0.5);
      for(auto& v : d) if( k == 0 ) v = gen_x(R); else if( R.coin() ) v += R.uni(-0.5, 0.5);
      if( wellposed(P, x, d, false, opt) ) return true;
   }
   return false;
}
template <class F> static std::string derivs(Rng& R, F& f, const Prog& P, const dv& x, const dv& d, const char* what) {
   // orders 0..2 in one random direction, against the Taylor oracle
   std::vector< std::vector<ld> > xc(x.size(), std::vector<ld>(3));
   orc::order = 2; std::vector< Jet<ld> > jx(x.size()), jd(d.size()), v;
   for(size_t i = 0; i < x.size(); ++i) { jx[i].c[0] = x[i]; jx[i].c[1] = (double)R.uni(-1, 1); jx[i].c[2] = (double)R.uni(-1, 1); }
   for(size_t i = 0; i < d.size(); ++i) jd[i] = Jet<ld>(d[i]);
   EvalInfo e; e.force = &P.cmp; eval(P, jx, jd, v, e);
   for(auto& j : v) for(auto c : j.c) if( ! (std::fabs(c) < 1e4) ) return "";
   std::ostringstream o; o.precision(17);
   for(int k = 0; k < 3; ++k) {
      dv xk(x.size()); for(size_t i = 0; i < x.size(); ++i) xk[i] = double(jx[i].c[k]);
      dv y = f.Forward(k, xk);
      for(size_t i = 0; i < P.out.size(); ++i) if( ! close(y[i], v[P.out[i]].c[k], 10, 1e-8) ) { o << what << ": order " << k << " of output " << i << " is " << y[i] << ", required " << (double)v[P.out[i]].c[k] << " at x=" << vs(x) << " d=" << vs(d); return o.str(); }
   }
   // reverse: inner product with a second direction equals the derivative of order one coefficients
   dv w(P.out.size()); for(auto& t : w) t = R.uni(-1, 1);
   dv dw = f.Reverse(1, w); ld a = 0, b = 0;
   for(size_t j = 0; j < x.size(); ++j) a += (ld)dw[j] * jx[j].c[1];
   for(size_t i = 0; i < w.size(); ++i) b += (ld)w[i] * v[P.out[i]].c[1];
   if( std::isfinite((double)a) && std::isfinite((double)b) && std::fabs(a - b) > 1e-7 * (10 + std::fabs(b)) ) { o << what << ": reverse mode inner product is " << (double)a << ", required " << (double)b << " at x=" << vs(x) << " d=" << vs(d); return o.str(); }
   return "";
}
static Prog cmpprog(Rng& R, GenOpt& G, const dv& x0, const dv& d0) {
   // many comparisons and conditional expressions
   for(int t = 0; t < 20; ++t) {
      Prog P = generate(R, G, x0, d0); int n = 0;
      for(auto& I : P.ins) if( I.op >= CLT && I.op <= CGT ) ++n; else if( I.op >= BLT && I.op <= BNE ) ++n;
      if( n >= 1 ) return P;
   }
   return generate(R, G, x0, d0);
}
static std::string one(const char* mode, unsigned long long seed) {
   Rng R(seed); GenOpt G; std::string m(mode);
   G.nx = 1 + R.below(3); G.nd = R.below(4); G.len = 1 + R.below(12); G.nout = 1 + R.below(3);
   if( m == "dynamic" ) { G.nx = 1 + R.below(2); G.nd = 1 + R.below(4); }
   if( m == "optimize" ) { G.len = 3 + R.below(22); G.nout = 1 + R.below(2); }
   dv x0, d0; for(int i = 0; i < G.nx; ++i) x0.push_back(gen_x(R)); for(int i = 0; i < G.nd; ++i) d0.push_back(gen_x(R));
   bool cm = m == "compare";
   Prog P = cm ? cmpprog(R, G, x0, d0) : generate(R, G, x0, d0);
   if( m == "dynamic" || (m == "record" && R.coin()) ) {
      // prefer operations between parameters: redirect operands to parameter slots
      for(int t = 0; t < 3; ++t) { Prog Q = generate(R, G, x0, d0); int a = 0, b = 0; for(size_t i = P.nx; i < P.par.size(); ++i) a += P.par[i]; for(size_t i = Q.nx; i < Q.par.size(); ++i) b += Q.par[i]; if( b > a ) P = Q; }
      for(size_t i = P.nx + P.nd; i < P.par.size(); ++i) if( P.par[i] && R.coin() ) P.out.push_back(int(i));
   }
   bool opt = m == "optimize";
   if( P.ins.empty() || ! wellposed(P, x0, d0, false, opt) ) return "";
   std::ostringstream o; o.precision(17);
   // ------------------------------------------------------------------ record
   std::vector<AD1> old;      // values from an earlier recording are constants now
   if( m == "record" ) { std::vector<AD1> t(x0.begin(), x0.end()); CppAD::Independent(t); for(auto& v : t) old.push_back(v * 2.0 - v); std::vector<AD1> y(1); y[0] = t[0]; CppAD::ADFun<double> g(t, y); }
   earlier(P);
   std::vector<AD1> ax(x0.begin(), x0.end()), ad(d0.begin(), d0.end()), v, ay;
   CppAD::Independent(ax, 0, true, ad);
   EvalInfo e; eval(P, ax, ad, v, e); P.cmp = e.cmp;
   dv now; { std::vector<double> w; EvalInfo e2; eval<double>(P, x0, d0, w, e2); if( e2.cmp != e.cmp ) { o << "outcome of a boolean comparison differs from the values compared: " << id(P) << " x=" << vs(x0) << " d=" << vs(d0); return o.str(); }
      if( ! mags(w) ) return "";
      for(size_t i = 0; i < w.size(); ++i) if( ! close(CppAD::Value(CppAD::Var2Par(v[i])), w[i], 1, 1e-13) ) { o << "value while recording of v" << i << " is " << CppAD::Value(CppAD::Var2Par(v[i])) << ", required " << w[i] << " : " << id(P) << " x=" << vs(x0) << " d=" << vs(d0); return o.str(); }
   }
   for(int k : P.out) ay.push_back(v[k]);
   if( ! old.empty() ) { AD1 s = ay[0]; for(size_t i = 0; i < old.size(); ++i) { s = s + old[i]; s = s - old[i]; s += old[i]; s -= old[i]; } ay[0] = s; }
   CppAD::ADFun<double> f; f.Dependent(ax, ay); f.check_for_nan(false);
   std::string ID = id(P) + " rec x=" + vs(x0) + " d=" + vs(d0);
   ++n_eval; sample(ID);
   dv x, d; std::string s;
   if( m == "record" ) {
      for(int t = 0; t < 3; ++t) {
         if( ! point(R, P, x0, d0, x, d, false) ) continue;
         if( ! d.empty() ) f.new_dynamic(d);
         dv y = f.Forward(0, x), w = values(P, x, d, true); if( ! mags(w) ) continue;
         ++n_nontriv;
         if( ! (s = differ(y, w, 1e-11, "replay")).empty() ) return s + " at x=" + vs(x) + " d=" + vs(d) + " " + ID;
      }
      return "";
   }
   if( m == "dynamic" ) {
      for(int t = 0; t < 4; ++t) {
         if( ! point(R, P, x0, d0, x, d, false) ) continue;
         f.new_dynamic(d);
         dv y = f.Forward(0, x), w = values(P, x, d, true); if( ! mags(w) ) continue;
         ++n_nontriv;
         if( ! (s = differ(y, w, 1e-11, "after new_dynamic")).empty() ) return s + " at x=" + vs(x) + " d=" + vs(d) + " " + ID;
         if( wellposed(P, x, d, true, false) && ! (s = derivs(R, f, P, x, d, "after new_dynamic")).empty() ) return s + " " + ID;
         // fresh recording with the new values
         std::vector<char> now2; { Prog T = P; T.cmp.clear(); values(T, x, d, false, 0, &now2); }
         if( now2 == P.cmp ) {
            Prog Q = P; CppAD::ADFun<double> g; record(Q, x, d, g, false);
            if( Q.cmp != P.cmp ) return "outcomes of the comparisons of a fresh recording at x=" + vs(x) + " d=" + vs(d) + " " + ID;
            dv z = g.Forward(0, x); if( ! (s = differ(y, z, 1e-13, "compared with a fresh recording")).empty() ) return s + " at x=" + vs(x) + " d=" + vs(d) + " " + ID;
            if( f.size_dyn_ind() != g.size_dyn_ind() ) return "number of dynamic parameters " + ID;
         }
         if( R.below(3) == 0 ) { // a sequence of updates ends in the same state
            dv d2 = d; for(auto& u : d2) u += 0.25; f.new_dynamic(d2); f.new_dynamic(d); dv z = f.Forward(0, x);
            if( ! (s = differ(z, y, 1e-14, "after a sequence of updates")).empty() ) return s + " at x=" + vs(x) + " d=" + vs(d) + " " + ID; }
      }
      return "";
   }
   if( cm ) {
      for(int t = 0; t < 4; ++t) {
         if( ! point(R, P, x0, d0, x, d, false) ) continue;
         // some special points: make operands equal
         if( ! d.empty() ) f.new_dynamic(d);
         size_t nc = R.below(4); f.compare_change_count(nc);
         dv y = f.Forward(0, x); std::vector<double> sl; EvalInfo ei; ei.force = &P.cmp; eval<double>(P, x, d, sl, ei);
         dv w; for(int k : P.out) w.push_back(sl[k]);
         if( ! mags(w) ) continue;
         ++n_nontriv;
         if( ! (s = differ(y, w, 1e-11, "replay")).empty() ) return s + " at x=" + vs(x) + " d=" + vs(d) + " " + ID;
         size_t want = ei.changes;
         // comparisons between constants are not recorded, they cannot change
         if( f.compare_change_number() != (nc ? want : 0) ) { o << "compare_change_number is " << f.compare_change_number() << ", " << want << " outcomes differ; count=" << nc << " at x=" << vs(x) << " d=" << vs(d) << " " << ID; return o.str(); }
         size_t idx = f.compare_change_op_index();
         if( (nc == 0 || want < nc) != (idx == 0) ) { o << "compare_change_op_index is " << idx << " with count " << nc << " and " << want << " changes at x=" << vs(x) << " d=" << vs(d) << " " << ID; return o.str(); }
         if( nc && want >= nc ) {
            // operator index of the nc-th change: record again and note the operator count at each comparison
            std::vector<AD1> bx(x0.begin(), x0.end()), bd(d0.begin(), d0.end()), bv; CppAD::Independent(bx, 0, true, bd);
            std::vector<size_t> opn; // operators before each comparison
            std::vector<char> oc; { std::vector<double> tmp; EvalInfo e3; e3.force = &P.cmp; eval<double>(P, x, d, tmp, e3); oc = e3.cmp; }
            { Prog Q = P; bv.clear(); EvalInfo e3; e3.force = &P.cmp; size_t ci = 0;
              Q.ins.clear();
              // evaluate instruction by instruction through prefixes is quadratic but programs are short
              for(size_t i = 0; i < P.ins.size(); ++i) if( P.ins[i].op >= BLT && P.ins[i].op <= BNE ) {
                 Prog q = P; q.ins.assign(P.ins.begin(), P.ins.begin() + i); std::vector<AD1> cx(x0.begin(), x0.end()), cd(d0.begin(), d0.end()), cv;
                 CppAD::AD<double>::abort_recording(); CppAD::Independent(cx, 0, true, cd); EvalInfo e4; e4.force = &P.cmp; eval(q, cx, cd, cv, e4);
                 opn.push_back(CppAD::AD<double>::tape_ptr()->Rec_.num_var_op()); ++ci; }
              CppAD::AD<double>::abort_recording();
            }
            size_t seen = 0, wantidx = 0;
            for(size_t k = 0; k < oc.size(); ++k) if( bool(oc[k]) != bool(P.cmp[k]) ) if( ++seen == nc ) { wantidx = opn[k]; break; }
            if( idx != wantidx ) { o << "compare_change_op_index is " << idx << " with count " << nc << ", the operator of that change is " << wantidx << " at x=" << vs(x) << " d=" << vs(d) << " " << ID; return o.str(); }
         }
         if( wellposed(P, x, d, true, false) && ! (s = derivs(R, f, P, x, d, "conditional program")).empty() ) return s + " " + ID;
         if( f.compare_change_number() != (nc ? want : 0) || f.compare_change_op_index() != idx ) { o << "compare_change_number is " << f.compare_change_number() << " after first and second order forward, " << want << " outcomes of the zero order sweep differ; count=" << nc << " at x=" << vs(x) << " d=" << vs(d) << " " << ID; return o.str(); }
      }
      return "";
   }
   if( opt ) {
      std::string options; 
      if( R.below(3) == 0 ) options += "no_conditional_skip ";
      if( R.below(3) == 0 ) options += "no_compare_op ";
      if( R.below(3) == 0 ) options += "no_cumulative_sum_op ";
      if( R.below(4) == 0 ) options += "no_print_for_op ";
      if( R.below(6) == 0 ) { options += R.coin() ? "collision_limit=1 " : "collision_limit=3 "; }
      bool vg = getenv("VALGRAPH") && R.below(3) == 0; if( vg ) options += "val_graph ";
      CppAD::ADFun<double> g; g = f; g.check_for_nan(false); g.optimize(options); af::optimized() = true;
      ID += " options=" + options;
      if( R.below(3) == 0 ) { g.optimize(options); ID += " twice"; }
      if( prog_atomic ) poison(g, 3, 0);
      for(int t = 0; t < 3; ++t) {
         if( t == 0 ) { x = x0; d = d0; } else if( ! point(R, P, x0, d0, x, d, true) ) continue;
         if( ! d.empty() ) { f.new_dynamic(d); g.new_dynamic(d); }
         dv y = g.Forward(0, x), z = f.Forward(0, x), w = values(P, x, d, true); if( ! mags(w) ) continue;
         ++n_nontriv;
         if( ! (s = differ(y, w, 1e-9, "optimized function")).empty() ) return s + " at x=" + vs(x) + " d=" + vs(d) + " " + ID;
         if( ! (s = differ(z, w, 1e-9, "function before optimization")).empty() ) return s + " at x=" + vs(x) + " d=" + vs(d) + " " + ID;
         if( wellposed(P, x, d, true, true) && ! (s = derivs(R, g, P, x, d, "optimized function")).empty() ) return s + " " + ID;
         if( options.find("no_compare_op") == std::string::npos && f.compare_change_number() != g.compare_change_number() && g.compare_change_number() > f.compare_change_number() ) { o << "optimized function reports more changed comparisons " << g.compare_change_number() << " " << f.compare_change_number() << vs(x) << vs(d) << ID; return o.str(); }
      }
      return "";
   }
   return "unknown mode";
}
