// Native replay of the contracts of the graph representation (C10): export and import of recorded functions.
# include "prog.hpp"
# include "main.hpp"
# include <iostream>
using orc::Jet;
static bool mags(const std::vector<double>& v) { for(auto a : v) if( ! (std::fabs(a) < 1e4) ) return false; return true; }
static dv values(const Prog& P, const dv& x, const dv& d) { std::vector<double> v; EvalInfo e; e.force = &P.cmp; eval<double>(P, x, d, v, e); dv y; for(int o : P.out) y.push_back(v[o]); return mags(v) ? y : dv(); }
static std::string differ(const dv& got, const dv& want, double tol, const char* what) {
   if( got.size() != want.size() ) return std::string(what) + ": number of outputs";
   for(size_t i = 0; i < want.size(); ++i) if( ! close(got[i], want[i], 4, tol) ) { std::ostringstream o; o.precision(17); o << what << ": output " << i << " is " << got[i] << ", required " << want[i]; return o.str(); }
   return "";
}
static bool point(Rng& R, const Prog& P, const dv& x0, const dv& d0, dv& x, dv& d) {
   for(int t = 0; t < 6; ++t) {
      x = x0; d = d0; int k = R.below(4);
      for(auto& v : x) if( k == 0 ) v = gen_x(R); else if( R.coin() ) v += R.uni(-0.5, 0.5);
      for(auto& v : d) if( k == 0 ) v = gen_x(R); else if( R.coin() ) v += R.uni(-0.5, 0.5);
      if( wellposed(P, x, d, true, true) ) return true;
   }
   return false;
}
// all Taylor coefficients up to order two in one direction and the order two reverse sweep, in the order of the independent variables
struct Sweeps { dv y0, y1, y2, dw; };
template <class F> static Sweeps sweeps(F& f, const dv& x, const dv& x1, const dv& x2, const dv& w, std::string& text) {
   Sweeps s; std::ostringstream o; s.y0 = f.Forward(0, x, o); text = o.str(); s.y1 = f.Forward(1, x1); s.y2 = f.Forward(2, x2); s.dw = f.Reverse(2, w); return s;
}
// a graph written by hand: operations between operands of every kind, also those that recording would have evaluated
static std::string hand(unsigned long long seed, bool text) {
   using namespace CppAD::graph;
   Rng R(seed); GenOpt G; G.nx = 1 + R.below(3); G.nd = R.below(3); G.len = 2 + R.below(14); G.nout = 1 + R.below(3); G.vec = false; G.cmp = false;
   dv x0, d0; for(int i = 0; i < G.nx; ++i) x0.push_back(gen_x(R)); for(int i = 0; i < G.nd; ++i) d0.push_back(gen_x(R));
   // extra dynamic parameters of the program become constants of the graph
   int nc = R.below(4); GenOpt H = G; H.nd += nc; dv e0 = d0; for(int i = 0; i < nc; ++i) e0.push_back(R.below(3) ? gen_x(R) : double(R.below(3)));
   Prog P = generate(R, H, x0, e0); if( P.ins.empty() || ! wellposed(P, x0, e0, true, true) ) return "";
   for(auto& I : P.ins) if( I.op == ATAN2 || (I.op == ATOM && I.imm >= 16) ) return "";
   for(size_t i = P.nx + P.nd; i < P.par.size(); ++i) if( P.par[i] && R.below(3) == 0 ) P.out.push_back(int(i));
   CppAD::cpp_graph g; g.initialize(); g.function_name_set("h"); g.n_dynamic_ind_set(G.nd); g.n_variable_ind_set(G.nx);
   size_t node = G.nd + G.nx; std::vector<size_t> at(P.nx + P.nd);
   for(int i = 0; i < G.nd; ++i) at[P.nx + i] = 1 + i;
   for(int i = 0; i < G.nx; ++i) at[i] = 1 + G.nd + i;
   auto konst = [&](double v) { g.constant_vec_push_back(v); return ++node; };
   for(int i = 0; i < nc; ++i) at[P.nx + G.nd + i] = konst(e0[G.nd + i]);
   std::vector<size_t> imm(P.ins.size(), 0);
   for(size_t k = 0; k < P.ins.size(); ++k) { const Ins& I = P.ins[k]; if( I.op == CONST || (I.op >= POWI && I.op < NOPC) ) imm[k] = konst(I.imm); }
   std::map<int, size_t> call; std::vector<double> w0; { EvalInfo e; eval<double>(P, x0, e0, w0, e); }
   for(size_t k = 0; k < P.ins.size(); ++k) {
      const Ins& I = P.ins[k]; std::vector<size_t> arg; graph_op_enum op = n_graph_op; size_t a = I.a >= 0 ? at[I.a] : 0, b = I.b >= 0 ? at[I.b] : 0, c = I.c >= 0 ? at[I.c] : 0, d = I.d >= 0 ? at[I.d] : 0;
      int n = int(at.size());
      if( I.op == CONST ) { at.push_back(imm[k]); continue; }
      if( I.op == UPLUS ) { at.push_back(a); continue; }
      if( I.op == AOUT ) { at.push_back(call[I.a] + size_t(I.imm)); continue; }
      static const std::map<int, graph_op_enum> one = { {NEG, neg_graph_op}, {EXP, exp_graph_op}, {EXPM1, expm1_graph_op}, {LOG, log_graph_op}, {LOG1P, log1p_graph_op}, {SQRT, sqrt_graph_op}, {SIN, sin_graph_op}, {COS, cos_graph_op}, {TAN, tan_graph_op}, {SINH, sinh_graph_op}, {COSH, cosh_graph_op}, {TANH, tanh_graph_op}, {ASIN, asin_graph_op}, {ACOS, acos_graph_op}, {ATAN, atan_graph_op}, {ASINH, asinh_graph_op}, {ACOSH, acosh_graph_op}, {ATANH, atanh_graph_op}, {ERF, erf_graph_op}, {ERFC, erfc_graph_op}, {ABS, abs_graph_op}, {SIGN, sign_graph_op} };
      if( one.count(I.op) ) { op = one.at(I.op); arg = { a }; }
      switch( I.op ) {
      case ADD: case ADDQ: op = add_graph_op; arg = { a, b }; break;
      case SUB: case SUBQ: op = sub_graph_op; arg = { a, b }; break;
      case MUL: case MULQ: op = mul_graph_op; arg = { a, b }; break;
      case DIV: case DIVQ: op = div_graph_op; arg = { a, b }; break;
      case POW: op = pow_graph_op; arg = { a, b }; break;
      case AZMUL: op = azmul_graph_op; arg = { a, b }; break;
      case POWI: op = pow_graph_op; arg = { a, imm[k] }; break;
      case ADDC: op = add_graph_op; arg = { a, imm[k] }; break;
      case SUBC: op = sub_graph_op; arg = { a, imm[k] }; break;
      case CSUB: op = sub_graph_op; arg = { imm[k], a }; break;
      case MULC: op = mul_graph_op; arg = { imm[k], a }; break;
      case DIVC: op = div_graph_op; arg = { a, imm[k] }; break;
      case CDIV: op = div_graph_op; arg = { imm[k], a }; break;
      case CLT: op = cexp_lt_graph_op; arg = { a, b, c, d }; break;
      case CLE: op = cexp_le_graph_op; arg = { a, b, c, d }; break;
      case CEQ: op = cexp_eq_graph_op; arg = { a, b, c, d }; break;
      case CGE: op = cexp_lt_graph_op; arg = { a, b, d, c }; break;
      case CGT: op = cexp_le_graph_op; arg = { a, b, d, c }; break;
      case DISC: { size_t f = g.discrete_name_vec_find("disc_fun"); if( f == g.discrete_name_vec_size() ) g.discrete_name_vec_push_back("disc_fun"); g.operator_vec_push_back(discrete_graph_op); g.operator_arg_push_back(f); g.operator_arg_push_back(a); at.push_back(++node); continue; }
# ifdef PROG_ATOMIC
      case ATOM: { int code = int(I.imm), t = code % 8, face = code / 8; const af::Fun& F = af::table()[t]; size_t z[] = { a, b, c, d };
         af::apply(code, std::vector<AD1>(4, AD1(1.0)));   // constructs the atomic functions
         std::string name = face == 0 ? "af_three" + std::to_string(t) : "af_four"; size_t f = g.atomic_name_vec_find(name); if( f == g.atomic_name_vec_size() ) g.atomic_name_vec_push_back(name);
         g.operator_vec_push_back(face == 0 ? atom_graph_op : atom4_graph_op); g.operator_arg_push_back(f); if( face == 1 ) g.operator_arg_push_back(11 + t); g.operator_arg_push_back(F.m()); g.operator_arg_push_back(F.n);
         for(size_t j = 0; j < F.n; ++j) g.operator_arg_push_back(z[j]);
         call[n] = node + 1; at.push_back(node + 1); node += F.m(); continue; }
# endif
      }
      if( op == add_graph_op && R.coin() ) { // a sum of several terms, some of them zero
         op = sum_graph_op; g.operator_vec_push_back(op); std::vector<size_t> t = arg; size_t extra = 0;
         if( R.coin() ) for(size_t q = 0; q < at.size() && extra < 2; ++q) if( (q < w0.size() && w0[q] == 0 && q >= size_t(P.nx + G.nd) && q < size_t(P.nx + P.nd)) ) { t.insert(t.begin() + R.below(int(t.size()) + 1), at[q]); ++extra; }
         g.operator_arg_push_back(t.size()); for(size_t q : t) g.operator_arg_push_back(q);
      } else { g.operator_vec_push_back(op); for(size_t q : arg) g.operator_arg_push_back(q); }
      at.push_back(++node);
      if( R.below(6) == 0 ) { // a comparison has no result
         static const graph_op_enum cmp[] = { comp_eq_graph_op, comp_le_graph_op, comp_lt_graph_op, comp_ne_graph_op };
         g.operator_vec_push_back(cmp[R.below(4)]); g.operator_arg_push_back(at[R.below(int(at.size()))]); g.operator_arg_push_back(at[R.below(int(at.size()))]);
      }
   }
   for(int k : P.out) g.dependent_vec_push_back(at[k]);
   CppAD::ADFun<double> f; f.check_for_nan(false); f.from_graph(g); std::string ID = P.str() + " written as a graph, the last " + std::to_string(nc) + " of its dynamic parameters constant, at " + vs(e0);
   if( text ) { std::string s = f.to_json(); f.from_json(s); ID += " json"; }
   f.check_for_nan(false); ++n_eval; sample(ID);
   std::ostringstream o; o.precision(17); std::string s;
   if( f.Domain() != size_t(G.nx) || f.size_dyn_ind() != size_t(G.nd) || f.Range() != P.out.size() ) return "sizes of the imported function " + ID;
   for(int t = 0; t < 3; ++t) {
      dv x = x0, d = e0; if( t > 0 ) { if( ! point(R, P, x0, e0, x, d) ) continue; for(int i = 0; i < nc; ++i) d[G.nd + i] = e0[G.nd + i]; if( ! wellposed(P, x, d, true, true) ) continue; }
      dv y = values(P, x, d); if( y.empty() ) continue;
      { std::vector<double> u; EvalInfo e; eval<double>(P, x, d, u, e); bool low = false; for(auto& I : P.ins) low |= I.op == POWI && std::fabs(u[I.a]) < 0.2; if( low ) continue; }   // the power operator, not repeated multiplication
      if( G.nd ) f.new_dynamic(dv(d.begin(), d.begin() + G.nd));
      ++n_nontriv; std::string where = " at x=" + vs(x) + " d=" + vs(d) + " " + ID;
      if( ! (s = differ(f.Forward(0, x), y, 1e-9, "the imported function")).empty() ) return s + where;
      orc::order = 1; std::vector< Jet<ld> > jx(x.size()), jd(d.size()), v; dv x1(x.size());
      for(size_t i = 0; i < x.size(); ++i) { jx[i].c[0] = x[i]; jx[i].c[1] = x1[i] = R.uni(-1, 1); }
      for(size_t i = 0; i < d.size(); ++i) jd[i] = Jet<ld>(d[i]);
      EvalInfo e; eval(P, jx, jd, v, e); bool big = false; for(auto& j : v) for(auto c : j.c) if( ! (std::fabs(c) < 1e4) ) big = true;
      if( big ) continue;
      dv y1 = f.Forward(1, x1), w; ld a = 0, b = 0; for(size_t i = 0; i < P.out.size(); ++i) { w.push_back(R.uni(-1, 1)); a += w[i] * v[P.out[i]].c[1]; }
      for(size_t i = 0; i < P.out.size(); ++i) if( ! close(y1[i], v[P.out[i]].c[1], 4, 1e-8) ) { o << "order one of output " << i << " of the imported function is " << y1[i] << ", required " << double(v[P.out[i]].c[1]) << where; return o.str(); }
      dv dw = f.Reverse(1, w); for(size_t j = 0; j < x.size(); ++j) b += (ld)dw[j] * x1[j];
      if( std::fabs(a - b) > 1e-7 * (10 + std::fabs(a)) ) { o << "reverse mode of the imported function: " << double(b) << ", required " << double(a) << where; return o.str(); }
   }
   return "";
}
static std::string one(const char* mode, unsigned long long seed) {
   if( std::string(mode) == "hand" ) return hand(seed, seed & 1);
   Rng R(seed); GenOpt G; std::string m(mode); bool text = m == "json";
   G.nx = 1 + R.below(3); G.nd = R.below(4); G.len = 1 + R.below(14); G.nout = 1 + R.below(3); G.vec = false;
   dv x0, d0; for(int i = 0; i < G.nx; ++i) x0.push_back(gen_x(R)); for(int i = 0; i < G.nd; ++i) d0.push_back(gen_x(R));
   Prog P = generate(R, G, x0, d0);
   if( R.coin() ) for(int t = 0; t < 3; ++t) { Prog Q = generate(R, G, x0, d0); int a = 0, b = 0; for(size_t i = P.nx; i < P.par.size(); ++i) a += P.par[i]; for(size_t i = Q.nx; i < Q.par.size(); ++i) b += Q.par[i]; if( b > a ) P = Q; }
   for(size_t i = P.nx + P.nd; i < P.par.size(); ++i) if( P.par[i] && R.below(4) == 0 ) P.out.push_back(int(i));
   if( P.ins.empty() || ! wellposed(P, x0, d0, true, true) ) return "";
   for(auto& I : P.ins) if( I.op == ATOM && I.imm >= 16 ) return "";   // no graph operator for the oldest atomic interface
   std::ostringstream o; o.precision(17);
   earlier(P);
   std::vector<AD1> ax(x0.begin(), x0.end()), ad(d0.begin(), d0.end()), v, ay;
   CppAD::Independent(ax, 0, true, ad);
   EvalInfo e; eval(P, ax, ad, v, e); P.cmp = e.cmp;
   bool print = R.below(3) == 0; if( print ) for(int k = 1 + R.below(2); k; --k) PrintFor(v[R.below(int(v.size()))], k == 1 ? "a" : "b ", v[R.below(int(v.size()))], R.coin() ? "\n" : "a");
   for(int k : P.out) ay.push_back(v[k]);
   CppAD::ADFun<double> f; f.Dependent(ax, ay); f.check_for_nan(false);
   std::string ID = P.str() + " rec x=" + vs(x0) + " d=" + vs(d0);
   bool opt = R.below(3) == 0; if( opt ) { f.optimize(); ID += " optimized"; af::optimized() = true; if( prog_atomic ) poison(f, 4, 0); }
   f.function_name_set("f");
   ++n_eval; sample(ID);
   // ------------------------------------------------------------------ export and import
   CppAD::ADFun<double> g; g.check_for_nan(false); CppAD::cpp_graph graph; int times = 1 + R.below(2);
   CppAD::vector<bool> d2v(G.nd), v2d(G.nx); bool sw = R.below(3) == 0; for(auto& I : P.ins) if( I.op == POW ) sw = false;   // the power of variables is defined for positive bases only
   for(int i = 0; i < G.nd; ++i) d2v[i] = sw && R.coin(); for(int i = 0; i < G.nx; ++i) v2d[i] = sw && R.coin();
   { bool any = false; for(int i = 0; i < G.nd; ++i) any |= bool(d2v[i]); for(int i = 0; i < G.nx; ++i) any |= ! v2d[i]; if( ! any ) v2d[0] = false; }
   for(int t = 0; t < times; ++t) {
      if( text ) { std::string s = (t ? g : f).to_json(); g.from_json(s); }
      else { (t ? g : f).to_graph(graph); if( t == times - 1 && sw ) g.from_graph(graph, d2v, v2d); else g.from_graph(graph); }
   }
   if( text ) sw = false;
   if( ! sw ) { for(int i = 0; i < G.nd; ++i) d2v[i] = false; for(int i = 0; i < G.nx; ++i) v2d[i] = false; }
   g.check_for_nan(false);
   ID += text ? " json" : " graph"; ID += times == 2 ? " twice" : ""; if( sw ) { ID += " dyn2var"; for(int i = 0; i < G.nd; ++i) ID += d2v[i] ? "1" : "0"; ID += " var2dyn"; for(int i = 0; i < G.nx; ++i) ID += v2d[i] ? "1" : "0"; }
   std::vector<int> var, dyn;    // what the independent variables and dynamic parameters of the new function are
   for(int i = 0; i < G.nd; ++i) (d2v[i] ? var : dyn).push_back(G.nx + i);
   for(int i = 0; i < G.nx; ++i) (v2d[i] ? dyn : var).push_back(i);
   if( g.Domain() != var.size() || g.size_dyn_ind() != dyn.size() || g.Range() != f.Range() ) { o << "the imported function has " << g.Domain() << " variables, " << g.size_dyn_ind() << " dynamic parameters and " << g.Range() << " results " << ID; return o.str(); }
   if( g.function_name_get() != "f" ) return "name of the imported function " + ID;
   for(int t = 0; t < 3; ++t) {
      dv x = x0, d = d0; if( t > 0 && ! point(R, P, x0, d0, x, d) ) continue;
      dv y = values(P, x, d); if( y.empty() ) continue;
      dv all = x; all.insert(all.end(), d.begin(), d.end());
      auto sub = [&](const std::vector<int>& k, const dv& a) { dv r; for(int i : k) r.push_back(a[i]); return r; };
      if( ! d.empty() ) f.new_dynamic(d);
      if( ! dyn.empty() ) g.new_dynamic(sub(dyn, all));
      ++n_nontriv; std::string s, where = " at x=" + vs(x) + " d=" + vs(d) + " " + ID, ta, tb;
      // a direction in the variables of both functions
      dv a1(all.size(), 0), a2(all.size(), 0); for(int i = 0; i < G.nx; ++i) if( ! v2d[i] ) { a1[i] = R.uni(-1, 1); a2[i] = R.uni(-1, 1); }
      dv w(f.Range()); for(auto& u : w) u = R.uni(-1, 1);
      std::vector<int> fx; for(int i = 0; i < G.nx; ++i) fx.push_back(i);
      Sweeps p = sweeps(f, x, sub(fx, a1), sub(fx, a2), w, ta), q = sweeps(g, sub(var, all), sub(var, a1), sub(var, a2), w, tb);
      if( ! mags(p.y1) || ! mags(p.y2) || ! mags(p.dw) ) continue;
      if( ! (s = differ(p.y0, y, 1e-9, "the function")).empty() ) return s + where;
      if( ! (s = differ(q.y0, y, 1e-9, "the imported function")).empty() ) return s + where;
      if( ! (s = differ(q.y1, p.y1, 1e-8, "order one of the imported function")).empty() ) return s + where;
      if( ! (s = differ(q.y2, p.y2, 1e-8, "order two of the imported function")).empty() ) return s + where;
      for(size_t j = 0; j < var.size(); ++j) if( var[j] < G.nx ) for(size_t k = 0; k < 2; ++k) { double a = p.dw[var[j] * 2 + k], b = q.dw[j * 2 + k]; if( ! close(b, a, 4, 1e-7) ) { o << "reverse mode of the imported function: coefficient " << k << " of variable " << var[j] << " is " << b << ", required " << a << where; return o.str(); } }
      if( ta != tb && ! opt ) return "the imported function prints \"" + tb + "\", required \"" + ta + "\"" + where;
   }
   return "";
}
