"""C18"""
import re, sys, os, time
from terms import *
from symex import *
from fn import *
from iter import Iter
import build
from optusage import opcodes
def driver():
    return '''#include <cppad/cppad.hpp>
using namespace CppAD; using namespace CppAD::local; using namespace CppAD::local::var_op;
typedef atomic_op_work<double> W_; typedef CppAD::vector<double> V_; typedef sparse::list_setvec S_;

extern "C" {
long K_opw = sizeof(op_code_var), K_v_cap = offsetof(V_, capacity_), K_v_len = offsetof(V_, length_), K_v_data = offsetof(V_, data_), K_etype = sizeof(ad_type_enum);
long K_px = offsetof(W_, parameter_x), K_tt = offsetof(W_, type_x), K_tx = offsetof(W_, taylor_x), K_ty = offsetof(W_, taylor_y), K_ptx = offsetof(W_, partial_x), K_pty = offsetof(W_, partial_y), K_ix = offsetof(W_, index_x), K_iy = offsetof(W_, index_y), K_vx = offsetof(W_, variable_x), K_vy = offsetof(W_, variable_y);
long K_pv_size = offsetof(pod_vector<bool>, size_), K_pv_cap = offsetof(pod_vector<bool>, capacity_), K_pv_data = offsetof(pod_vector<bool>, data_);
long K_const = constant_enum, K_dyn = dynamic_enum, K_var = variable_enum;
void w_forward(play::const_sequential_iterator& it, const player<double>* p, const double* par, W_& w, size_t cap, size_t lo, size_t up, double* t) { atomic_forward_any<double,double>(it, p, par, false, w, cap, lo, up, t); }
void w_dir(play::const_sequential_iterator& it, const player<double>* p, const double* par, W_& w, size_t cap, size_t up, size_t r, double* t) { atomic_forward_dir<double,double>(it, p, par, false, w, cap, up, r, t); }
void w_reverse(play::const_sequential_iterator& it, const player<double>* p, const double* par, W_& w, size_t cap, size_t n, const double* t, double* d) { atomic_reverse<double,double>(it, p, par, false, w, cap, n, t, d); }
void w_sub_reverse(play::const_subgraph_iterator<addr_t>& it, const player<double>* p, const double* par, W_& w, size_t cap, size_t n, const double* t, double* d) { atomic_reverse<double,double>(it, p, par, false, w, cap, n, t, d); }
void w_for_jac(play::const_sequential_iterator& it, const player<double>* p, const double* par, W_& w, bool d, S_& s) { atomic_for_jac<S_,double,double>(it, p, par, false, w, d, s); }
void w_rev_jac(play::const_sequential_iterator& it, const player<double>* p, const double* par, W_& w, bool d, S_& s) { atomic_rev_jac<S_,double,double>(it, p, par, false, w, d, s); }
void w_for_hes(play::const_sequential_iterator& it, const player<double>* p, const double* par, W_& w, size_t np1, const S_& r, S_& h) { atomic_for_hes<S_,double,double>(it, p, par, false, w, np1, r, h); }
void w_rev_hes(play::const_sequential_iterator& it, const player<double>* p, const double* par, W_& w, const S_& j, bool* r, S_& h) { atomic_rev_hes<S_,double,double>(it, p, par, false, w, j, r, h); }
}
'''
def load(): return build.ir(driver(), 'atomic', extra=['-fno-access-control'])
TYPES = {'d': (8, 'R'), 'e': (4, 'I'), 'i': (8, 'I'), 'b': (1, 'I')}
FIELDS = {'px': 'd', 'tt': 'e', 'tx': 'd', 'ty': 'd', 'ptx': 'd', 'pty': 'd', 'ix': 'i', 'iy': 'i', 'vx': 'b', 'vy': 'b'}
class Phase:
    """summary of a loop: what iteration t (0 <= t < N) writes, path by path"""
    def __init__(self, t, N): self.t = t; self.N = N; self.paths = []
class Call(Fn):
    FORWARD = True
    def __init__(self, M, fn, label):
        Fn.__init__(self, M, label); E = self.E; K = self.K; self.fn = fn
        self.m = P(var('m')); self.n = P(var('n')); self.q = P(var('n_order')); self.cap = P(var('cap_order')); self.p0 = P(var('pos')); self.lo = P(var('order_low'))
        self.assume(ge(self.m, 1), ge(self.n, 1), ge(self.q, 1), ge(self.cap, self.q), ge(self.p0, self.n + self.m + 2), ge(self.lo, 0), lt(self.lo, self.q))
        # the sequence of operators: operator code, arguments and result as functions of the position of the iterator
        self.obj('it', {0: self.p0}); self.obj('play', const=True); self.plain('args', 4, 'I', const=True); self.unsigned('args')
        self.plain('par', 8, 'R', const=True); self.plain('taylor', 8, 'R'); self.plain('partial', 8, 'R')
        if not self.FORWARD: self.st.mem['taylor'].meta['const'] = True
        self.plain('bdyn', 1, 'I', const=True); self.unsigned('bdyn'); self.obj('pdyn', {K['pv_size']: P(var('num_par')), K['pv_cap']: P(var('num_par')), K['pv_data']: Ptr('bdyn', 0)}, const=True)
        fields = {}
        for f, c in FIELDS.items():
            es, so = TYPES[c]; self.plain('b_' + f, es, so); self.unsigned('b_' + f) if so == 'I' else None
            fields[K[f] + K['v_data']] = Ptr('b_' + f, 0); fields[K[f] + K['v_len']] = P(var('len_' + f)); fields[K[f] + K['v_cap']] = P(var('len_' + f))
        self.obj('work', fields); self.ncall = 0; self.nphase = 0; self.npost = 0; self.phase_of = {}
        E.contracts.update({
            r'player<double>::par_is_dyn\(\)': lambda E, st, a, ins, d: Ptr('pdyn', 0),
            r'_iterator(<unsigned int>)?::operator\+\+\(\)': lambda E, st, a, ins, d: self.move(E, st, a, 1), r'_iterator(<unsigned int>)?::operator--\(\)': lambda E, st, a, ins, d: self.move(E, st, a, -1),
            r'_iterator(<unsigned int>)?::op_info\(': self.op_info, r'play::atom_op_info<': self.atom_info, r'atomic_op_work<double>::resize\(': self.resize,
            r'numeric_limits<double>::quiet_NaN\(\)': lambda E, st, a, ins, d: P(var('not_specified', 'R')), r'sweep::call_atomic_': self.call_atomic})
        E.loop_hook = self.hook; self.dry = False; self.r = P(var('n_dir')); self.assume(ge(self.r, 1)); self.dir = None; self.start = self.st
    # ------------------------------------------------------------ the recording
    def position(self, st): return P(self.E.read_obj(st, st.mem['it'], ZERO, 8, 'I'))
    def move(self, E, st, a, d): E.write(st, Ptr('it', 0), self.position(st) + d, 8, 'I'); return a[0]
    def OP(self, p): return self.nonneg(app('op_code', [P(p)], 'I'))
    def IV(self, p): return self.nonneg(app('i_var', [P(p)], 'I'))
    def ARG(self, p): return self.E.read_obj(self.st, self.st.mem['args'], P(app('first_arg', [P(p)], 'I')) * 4, 4, 'I')
    def op_info(self, E, st, a, ins, d):
        p = self.position(st)
        E.write(st, a[1], self.OP(p), self.K['opw'], 'I'); E.write(st, a[2], Ptr('args', P(app('first_arg', [p], 'I')) * 4), 8, 'P'); E.write(st, a[3], self.IV(p), 8, 'I'); return None
    def nonneg(self, x):
        c = ge(x, 0)
        if c not in self.pr.axioms: self.pr.axioms.append(c)
        return x
    def atom_info(self, E, st, a, ins, d):
        for p, v in zip(a[2:6], (P(var('atom_index')), P(var('call_id')), self.m, self.n)): E.write(st, p, self.nonneg(v), 8, 'I')
        return Ptr(None, 0)
    def resize(self, E, st, a, ins, d): st.ghost['resize'] = tuple(a[1:5]); return None
    def xpos(self, j): return self.p0 + 1 + P(j) if self.FORWARD else self.p0 - self.m - self.n + P(j)
    def ypos(self, i): return self.p0 + 1 + self.n + P(i) if self.FORWARD else self.p0 - self.m + P(i)
    def valid(self, j=None, i=None):
        """the operators of a call: arguments, then results"""
        c = opcodes(); r = []
        if j is not None: r.append(Or(eq(self.OP(self.xpos(j)), c['FunapOp']), eq(self.OP(self.xpos(j)), c['FunavOp'])))
        if i is not None: r.append(Or(eq(self.OP(self.ypos(i)), c['FunrpOp']), eq(self.OP(self.ypos(i)), c['FunrvOp'])))
        return And(*r)
    # ------------------------------------------------------------ loops
    def hook(self, E, st, env, f, L, prev):
        if 'atomic_' not in E.M.dem.get(f.name, f.name): return E.loop_default(st, env, f, L, prev)
        nested = any(l is not L and l.header in L.body for l in llir.loops(f).values())
        moves = any(i.op == 'call' and i.a[0][0] == 'glob' and re.search('op_info', E.M.dem.get(i.a[0][1], i.a[0][1])) for b in L.body for i in f.blocks[b].ins)
        if not (nested or moves): return E.loop_default(st, env, f, L, prev)
        return self.phase(st, env, f, L, prev)
    def phase(self, st, env, f, L, prev):
        E = self.E; self.nphase += 1; num = self.nphase; H, init = E.loop_entry(st, env, f, L, prev); t = fresh('t', 'I'); step = {}
        for ph in H.phis:
            if ph.ty[0] != 'int' or ph.ty[1] == 1: raise Unsupported('loop variable')
        ch = set(); pos0 = self.position(st); mv = ZERO; dry0 = self.dry; self.dry = True
        for _ in range(8):
            s1 = st.fork(ge(P(t), 0)); e1 = dict(env)
            for c in ch:
                o = s1.mem[c]; s1.mem[c] = Obj(o.name, 'any%d_%s' % (num, c), (), o.size, o.meta)
                if o.meta.get('sort') == 'I': self.unsigned(s1.mem[c].base)
            for ph in H.phis: e1[ph.res] = P(init[ph.res]) + step.get(ph.res, ONE) * P(t)
            E.write(s1, Ptr('it', 0), pos0 + mv * P(t), 8, 'I')
            outs = [o for o in E.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header) if self.pr.feasible(o.st.pc)]
            back = [o for o in outs if o.kind == 'edge' and o.data[1] == L.header]
            if not back: raise Unsupported('loop without iteration')
            new = {c for o in outs for c in o.st.mem if c in st.mem and c != 'it' and (o.st.mem[c].upds != s1.mem[c].upds or o.st.mem[c].base != s1.mem[c].base)} - ch
            d = {}; again = bool(new)
            for ph in H.phis:
                nx = {P(E.coerce(E.const(v, ph.ty, o.st, o.env), ph.ty)) - P(e1[ph.res]) for o in back for v, pb in ph.a if pb == o.data[0]}
                if len(nx) != 1 or list(nx)[0].cval() is None: raise Unsupported('loop variable')
                d[ph.res] = list(nx)[0]; again = again or d[ph.res] != step.get(ph.res, ONE)
            dm = {self.position(o.st) - (pos0 + mv * P(t)) for o in back}
            if len(dm) != 1 or list(dm)[0].cval() is None: raise Unsupported('position of the iterator')
            again = again or list(dm)[0] != mv; step = d; mv = list(dm)[0]; ch |= new
            if not again: break
        else: raise Unsupported('loop')
        # number of iterations
        N = None
        for c in self.counts():
            if all(self.pr.prove(o.st.pc + (le(P(t), c),), lt(P(t), c)) for o in back) and all(self.pr.prove(o.st.pc + (le(P(t), c),), eq(P(t), c)) for o in outs if o not in back): N = c; break
        if N is None: raise Unsupported('number of iterations')
        if any(o.kind == 'ret' for o in outs): raise Unsupported('return in a loop')
        p = Phase(t, N); p.pre = s1; self.dry = dry0
        ph0 = [ph for ph in H.phis if P(init[ph.res]) in (ZERO, N)]
        row = P(t) if not ph0 or P(init[ph0[0].res]) == ZERO else N - 1 - P(t)
        for case in self.cases(N, row):
            s2 = s1.fork(lt(P(t), N), case); keep = self.dir, self.start
            if N == self.r: self.dir = row; self.start = s2
            o1 = [o for o in E.run(s2, dict(e1), f, L.header, prev, L.body, skip_loop=L.header) if self.pr.feasible(o.st.pc)] if self.pr.feasible(s2.pc) else []
            self.dir, self.start = keep
            for o in o1:
                if o.kind == 'edge' and o.data[1] == L.header: p.paths.append((tuple(c for c in o.st.pc if c not in st.pc), o.st))
        p.row = row
        if not self.dry: self.results(p)
        out = []
        for o in outs:
            if o in back or not self.pr.feasible(o.st.pc + (le(P(t), N),)): continue
            sub = {t.id: N} if hasattr(t, 'id') else None
            s2 = st.fork(); e2 = dict(o.env)
            for ph in H.phis: e2[ph.res] = P(init[ph.res]) + step[ph.res] * N
            E.write(s2, Ptr('it', 0), pos0 + mv * N, 8, 'I')
            for c in ch:
                ob = s2.mem[c]; nm = 'end%d_%s' % (num, c); s2.mem[c] = Obj(ob.name, nm, (), ob.size, ob.meta); self.define(nm, c, p, st)
            if N == self.r and all(s.ghost.get('called') == 1 for pc, s in p.paths): s2.ghost['called'] = 1          # once in each direction
            if any(o.st.mem[c].upds != s1.mem[c].upds for c in ch): raise Unsupported('the last test of a loop changes memory')
            out.append((s2, self.env_of(f, L, e2, env), o.data[0], o.data[1]))
        if len(out) != 1: raise Unsupported('exits of a loop')
        return out
    def env_of(self, f, L, e2, env):
        """values computed inside of the loop are not used after it, except the loop variables"""
        H = f.blocks[L.header]; r = dict(env)
        for ph in H.phis: r[ph.res] = e2[ph.res]
        return r
    def cases(self, N, row):
        if N == self.n: v = self.valid(j=row); c = self.isvar(self.xpos(row))
        elif N == self.m: v = self.valid(i=row); c = self.isvar(self.ypos(row), True)
        else: return [TRUE]
        return [And(v, c), And(v, Not(c))]
    def counts(self): return [self.n, self.m, self.r]
    def split(self, off, es):
        """row and column of an offset: off = (row * n_order + column) * es"""
        x = P(off); row = ZERO; col = ZERO; qa = list(self.q.d)[0][0][0]
        for mon, c in x.d.items():
            if c % es: raise Unsupported('offset')
            md = dict(mon)
            if md.get(qa) == 1:
                del md[qa]; row = row + Poly({tuple(sorted(md.items())): c / es})
            elif qa in md: raise Unsupported('offset')
            else: col = col + Poly({mon: c / es})
        return row, col
    def define(self, name, obj, p, st):
        """content of an object after the loop, at offsets that match what an iteration writes"""
        E = self.E; es = st.mem[obj].meta.get('esize', 8); two = obj in ('b_tx', 'b_ty', 'b_ptx', 'b_pty'); so = st.mem[obj].meta.get('sort')
        pats = []
        ok = obj.startswith('b_')
        for pc, s in p.paths if ok else ():
            ups = s.mem[obj].upds[len(p.pre.mem[obj].upds):] if s.mem[obj].base == p.pre.mem[obj].base else None
            if ups is None: ok = False; break
            us = []
            for u in ups:
                if u.kind != 'pt' or u.width != es: ok = False; break
                row, col = self.split(u.off, es) if two else (Poly({m: c / es for m, c in P(u.off).d.items()}), ZERO)
                a = coeff(row, p.t)
                if a is None or a[0].cval() not in (1, -1): ok = False; break
                facts = pc + tuple(st.pc) + (u.guard,) + tuple(x for v, nn in u.vars for x in (ge(P(v), 0), lt(P(v), nn)))
                if two and not self.pr.prove(facts, And(ge(col, 0), lt(col, self.q))): ok = False; break
                us.append((u, a, col))
            pats.append((pc, us))
        def rd(E, s, o, off, w, sort):
            if not ok or w != es: return P(fresh('unknown', sort)) if sort == 'R' else self.nonneg(P(fresh('unknown', 'I')))
            row, col = self.split(off, es) if two else (Poly({m: c / es for m, c in P(off).d.items()}), ZERO)
            res = sel('before_' + name, P(off), sort, w)
            if sort == 'I': self.nonneg(res)
            for pc, us in pats:
                for u, (a, b), c in us:
                    tt = (row - b) * a                     # the iteration that writes this row
                    sb = {p.t.id: tt}; g = [subst(x, sb) for x in pc] + [ge(tt, 0), lt(tt, p.N), subst(u.guard, sb)]; val = subst(u.val, sb) if isinstance(u.val, (Poly, Cond)) else u.val
                    c2 = subst(c, sb)
                    if u.vars:
                        if len(u.vars) > 1: return P(fresh('unknown', sort))
                        v, nn = u.vars[0]; cc = coeff(c2, v)
                        if cc is None or cc[0].cval() not in (1, -1): return P(fresh('unknown', sort))
                        kv = (col - cc[1]) * cc[0]; s2 = {v.id: kv}; g = [subst(x, s2) for x in g] + [ge(kv, 0), lt(kv, subst(nn, sb))]; val = subst(val, s2)
                    elif two: g.append(eq(c2, col))
                    G = And(*g)
                    if G is FALSE: continue
                    if self.pr.prove(s.pc, G): res = val
                    elif self.pr.prove(s.pc, Not(G)): continue
                    else: res = ite(G, val if not isinstance(val, Cond) else b2i(val), res)
            return res
        E.bases[name] = rd
    def results(self, p): pass
    # ------------------------------------------------------------ the call
    def elem(self, st, v, k, c):
        """element k of a CppAD vector"""
        es, so = TYPES[c]; d = self.E.read_obj(st, self.E.getobj(st, v.obj), v.off + self.K['v_data'], 8, 'P')
        if not isinstance(d, Ptr): raise Unsupported('vector argument')
        return self.E.read_obj(st, self.E.getobj(st, d.obj), d.off + P(k) * es, es, so)
    def isvar(self, pos, res=False): return eq(self.OP(pos), opcodes()['FunrvOp' if res else 'FunavOp'])
    def types(self, st, px, tt):
        """the kind of an argument and the value of one that is a parameter"""
        j = P(fresh('j', 'I')); K = self.K; p = self.xpos(j); s = st.fork(ge(j, 0), lt(j, self.n), self.valid(j=j)); a = self.ARG(p)
        sv = s.fork(self.isvar(p)); sp_ = s.fork(Not(self.isvar(p)))
        self.eq(sv, self.elem(sv, tt, j, 'e'), P(K['var']), 'the type of a variable argument')
        b = self.E.read_obj(s, s.mem['bdyn'], a, 1, 'I'); self.assume(le(b, 1), eq(app('mod', [b, P(2)], 'I'), b)); dyn = eq(b, 1)
        for c, v in ((dyn, K['dyn']), (Not(dyn), K['const'])):
            s2 = sp_.fork(c); self.eq(s2, self.elem(s2, tt, j, 'e'), P(v), 'the type of a parameter argument')
        self.eq(sp_, self.elem(sp_, px, j, 'd'), self.E.read_obj(s, s.mem['par'], a * 8, 8, 'R'), 'the value of a parameter argument')
    def location(self, v, k): return P(v) * self.cap + P(k)
    def parts(self, k): return [TRUE]
    def coef(self, st, v, k): return self.E.read_obj(st, st.mem['taylor'], self.location(v, k) * 8, 8, 'R')
    def same(self, st, got, want, what):
        """got and want are functions of the state: case split before they are read"""
        if self.pr.feasible(st.pc): self.eq(st, got(st), want(st), what)
    def orders(self, st, tx):
        j = P(fresh('j', 'I')); k = P(fresh('k', 'I')); p = self.xpos(j); s = st.fork(ge(j, 0), lt(j, self.n), ge(k, 0), lt(k, self.q), self.valid(j=j)); a = self.ARG(p)
        sv = s.fork(self.isvar(p)); sp_ = s.fork(Not(self.isvar(p))); get = lambda s: self.elem(s, tx, j * self.q + k, 'd')
        for c in self.parts(k): self.same(sv.fork(c), get, lambda s: self.coef(s, a, k), 'the coefficients of a variable argument')
        self.same(sp_.fork(eq(k, 0)), get, lambda s: self.E.read_obj(s, s.mem['par'], a * 8, 8, 'R'), 'order zero of a parameter argument')
        self.same(sp_.fork(ge(k, 1)), get, lambda s: ZERO, 'higher orders of a parameter argument')
    def lower(self, st, ty, top):
        i = P(fresh('i', 'I')); k = P(fresh('k', 'I')); p = self.ypos(i); s = st.fork(ge(i, 0), lt(i, self.m), ge(k, 0), lt(k, top), self.valid(i=i)); get = lambda s: self.elem(s, ty, i * self.q + k, 'd')
        sv = s.fork(self.isvar(p, True)); sp_ = s.fork(Not(self.isvar(p, True)))
        for c in self.parts(k): self.same(sv.fork(c), get, lambda s: self.coef(s, self.IV(p), k), 'the coefficients of a variable result')
        self.same(sp_.fork(eq(k, 0)), get, lambda s: self.E.read_obj(s, s.mem['par'], self.ARG(p) * 8, 8, 'R'), 'order zero of a parameter result')
        self.same(sp_.fork(ge(k, 1)), get, lambda s: ZERO, 'higher orders of a parameter result')
    def place(self, st, ai, ci):
        self.eq(st, ai, P(var('atom_index')), 'the atomic function'); self.eq(st, ci, P(var('call_id')), 'the identifier of the call')
        self.eq(st, self.position(st), self.p0 + self.n + self.m + 1 if self.FORWARD else self.p0 - self.n - self.m - 1, 'the iterator is at the other end of the call')
        self.true('resize' in st.ghost and all(self.pr.prove(st.pc, eq(P(a), b)) for a, b in zip(st.ghost['resize'], (self.m, self.n))), 'the work vectors have the size of the call')
    def finish(self):
        if not self.ncall: raise ObligationFailed(self.label + ': the atomic function is called')
        for st, r in self.outs: self.true(st.ghost.get('called') == 1, 'the atomic function is called once', str(st.ghost.get('called')))
        return self.done()
    def called(self, st): st.ghost['called'] = st.ghost.get('called', 0) + 1
    def unchanged(self, a, b, o): return a.mem[o].upds == b.mem[o].upds and a.mem[o].base == b.mem[o].base
    def select(self, st, v, n, valid, isv, what):
        k = P(fresh('k', 'I')); s = st.fork(ge(k, 0), lt(k, n), valid(k))
        for c, w in ((isv(k), 1), (Not(isv(k)), 0)): self.same(s.fork(c), lambda s: self.elem(s, v, k, 'b'), lambda s: P(w), what)
    def after(self, st, obj):
        o = st.mem[obj]; st.mem[obj] = Obj(o.name, 'returned_' + obj, (), o.size, o.meta)
class Forward(Call):
    def call_atomic(self, E, st, a, ins, d):
        px, tt, need, vy, lo, up, ai, ci, tx, ty = a[:10]; K = self.K; self.called(st); buf = E.read_obj(st, E.getobj(st, ty.obj), ty.off + K['v_data'], 8, 'P').obj
        if not self.dry:
            self.ncall += 1
            self.types(st, px, tt); self.orders(st, tx); self.lower(st, ty, self.lo); self.place(st, ai, ci)
            self.eq(st, need, P(K['var']), 'the results that are variables are requested'); self.eq(st, lo, self.lo, 'the lowest order'); self.eq(st, up, self.q - 1, 'the highest order')
            self.select(st, vy, self.m, lambda k: self.valid(i=k), lambda k: self.isvar(self.ypos(k), True), 'the selected results are the variables')
            self.true(self.unchanged(st, self.start, 'taylor'), 'no coefficient is changed before the call')
        self.after(st, buf); self.ty = ty; return None
    def results(self, p):
        """iterations after the call: the new coefficients are stored"""
        if not any(s.ghost.get('called') for pc, s in p.paths) or p.N == self.r: return
        if not any(s.mem['taylor'] is not p.pre.mem['taylor'] for pc, s in p.paths): return
        self.npost += 1; E = self.E; i = P(p.row); pos = self.ypos(i)
        if p.N != self.m: raise Unsupported('loop that stores the results')
        for pc, s in p.paths:
            n0 = len(p.pre.mem['taylor'].upds); ups = s.mem['taylor'].upds[n0:]
            sv = s.fork(self.isvar(pos, True)); sp_ = s.fork(Not(self.isvar(pos, True)))
            if self.pr.feasible(sp_.pc): self.true(not ups, 'nothing is stored for a result that is a parameter', str(ups)[:200])
            if not self.pr.feasible(sv.pc): continue
            k = self.lo if self.lo == self.q - 1 else P(fresh('k', 'I')); s2 = sv.fork(ge(k, self.lo), lt(k, self.q))
            for c in self.parts(k): self.same(s2.fork(c), lambda s: self.coef(s, self.IV(pos), k), lambda s: self.elem(s, self.ty, i * self.q + k, 'd'), 'the new coefficients of a variable result are stored')
            for u in ups:
                fr = tuple(x for v, nn in u.vars for x in (ge(P(v), 0), lt(P(v), nn)))
                self.holds(sv.fork(u.guard, *fr), self.new(u.off, self.IV(pos)), 'only new coefficients of the result are stored')
    def new(self, off, v): c = P(off) - self.location(v, 0) * 8; return And(ge(c, self.lo * 8), lt(c, self.q * 8))
    def wrapper(self): self.call('w_forward', [Ptr('it', 0), Ptr('play', 0), Ptr('par', 0), Ptr('work', 0), self.cap, self.lo, self.q - 1, Ptr('taylor', 0)])
    def check(self):
        self.wrapper(); self.true(self.npost > 0, 'the new coefficients of a variable result are stored'); return self.finish()
class Dir(Forward):
    def __init__(self, M, fn, label): Call.__init__(self, M, fn, label); self.lo = self.q - 1; self.assume(ge(self.q, 2))
    def location(self, v, k):
        if self.dir is None: raise Unsupported('the direction')
        z = P(v) * ((self.cap - 1) * self.r + 1); return z if P(k) == ZERO else z + self.now(P(k))
    def now(self, k): return ite(eq(k, 0), ZERO, (k - 1) * self.r + 1 + self.dir)
    def parts(self, k): return [eq(k, 0), ge(k, 1)]
    def coef(self, st, v, k):
        z = P(v) * ((self.cap - 1) * self.r + 1)
        if not self.pr.prove(st.pc, eq(k, 0)): z = z + (P(k) - 1) * self.r + 1 + self.dir
        return self.E.read_obj(st, st.mem['taylor'], z * 8, 8, 'R')
    def new(self, off, v): return eq(P(off), (P(v) * ((self.cap - 1) * self.r + 1) + (self.q - 2) * self.r + 1 + self.dir) * 8)
    def wrapper(self): self.call('w_dir', [Ptr('it', 0), Ptr('play', 0), Ptr('par', 0), Ptr('work', 0), self.cap, self.q - 1, self.r, Ptr('taylor', 0)])
class Reverse(Call):
    FORWARD = False
    def call_atomic(self, E, st, a, ins, d):
        px, tt, vx, up, ai, ci, tx, ty, ptx, pty = a[:10]; K = self.K; self.called(st); buf = E.read_obj(st, E.getobj(st, ptx.obj), ptx.off + K['v_data'], 8, 'P').obj
        if not self.dry:
            self.ncall += 1
            self.types(st, px, tt); self.orders(st, tx); self.lower(st, ty, self.q); self.place(st, ai, ci); self.eq(st, up, self.q - 1, 'the highest order')
            self.select(st, vx, self.n, lambda k: self.valid(j=k), lambda k: self.isvar(self.xpos(k)), 'the selected arguments are the variables')
            i = P(fresh('i', 'I')); k = P(fresh('k', 'I')); p = self.ypos(i); s = st.fork(ge(i, 0), lt(i, self.m), ge(k, 0), lt(k, self.q), self.valid(i=i)); get = lambda s: self.elem(s, pty, i * self.q + k, 'd')
            self.same(s.fork(self.isvar(p, True)), get, lambda s: self.E.read_obj(s, s.mem['partial'], (self.IV(p) * self.q + k) * 8, 8, 'R'), 'the partials of a variable result')
            self.same(s.fork(Not(self.isvar(p, True)), eq(k, 0)), get, lambda s: ZERO, 'the partials of a parameter result are zero')
            self.same(s.fork(Not(self.isvar(p, True)), ge(k, 1)), get, lambda s: ZERO, 'the partials of a parameter result are zero')
            self.true(self.unchanged(st, self.start, 'partial'), 'no partial is changed before the call')
        self.after(st, buf); self.px = ptx; return None
    def results(self, p):
        if not any(s.ghost.get('called') for pc, s in p.paths): return
        if not any(s.mem['partial'] is not p.pre.mem['partial'] for pc, s in p.paths): return
        self.npost += 1; E = self.E; j = P(p.row); pos = self.xpos(j)
        if p.N != self.n: raise Unsupported('loop that adds the partials')
        for pc, s in p.paths:
            n0 = len(p.pre.mem['partial'].upds); ups = s.mem['partial'].upds[n0:]; at = lambda s, k: E.read_obj(s, s.mem['partial'], (self.ARG(pos) * self.q + k) * 8, 8, 'R')
            sv = s.fork(self.isvar(pos)); sp_ = s.fork(Not(self.isvar(pos)))
            if self.pr.feasible(sp_.pc): self.true(not ups, 'nothing is added for an argument that is a parameter', str(ups)[:200])
            if not self.pr.feasible(sv.pc): continue
            k = P(fresh('k', 'I')); s2 = sv.fork(ge(k, 0), lt(k, self.q))
            self.same(s2, lambda s: at(s, k), lambda s: E.read_obj(s, p.pre.mem['partial'], (self.ARG(pos) * self.q + k) * 8, 8, 'R') + self.elem(s, self.px, j * self.q + k, 'd'), 'the partials of a variable argument are added')
            for u in ups:
                fr = tuple(x for v, nn in u.vars for x in (ge(P(v), 0), lt(P(v), nn))); c = P(u.off) - self.ARG(pos) * self.q * 8
                self.holds(sv.fork(u.guard, *fr), And(ge(c, 0), lt(c, self.q * 8)), 'only partials of the argument are changed')
    def check(self):
        self.call('w_' + self.fn, [Ptr('it', 0), Ptr('play', 0), Ptr('par', 0), Ptr('work', 0), self.cap, self.q, Ptr('taylor', 0), Ptr('partial', 0)])
        self.true(self.npost > 0, 'the partials of a variable argument are added'); return self.finish()
class Sparsity(Call):
    def __init__(self, M, fn, label):
        self.FORWARD = fn.startswith('for'); Call.__init__(self, M, fn, label)
        for o in ('S', 'J', 'rj'): self.obj(o)
    def call_atomic(self, E, st, a, ins, d):
        K = self.K; self.called(st); hes = 'hes' in self.fn; ai, ci = a[:2]; px, tt, ix, iy = a[2:6] if hes else a[3:7]
        if not self.dry:
            self.ncall += 1; self.types(st, px, tt); self.place(st, ai, ci)
            rest = {'for_jac': [Ptr('S', 0)], 'rev_jac': [Ptr('S', 0)], 'rev_hes': [Ptr('J', 0), Ptr('rj', 0), Ptr('S', 0)], 'for_hes': [P(var('np1')), P(var('num_var')), Ptr('J', 0), Ptr('S', 0)]}[self.fn]
            for x, y in zip(a[6:] if hes else a[7:], rest): self.eq(st, x, y, 'the sets that are passed')
            if not hes: self.iff(st, a[2], self.dep, 'the kind of pattern')
            for v, n, valid, pos, isv, val, what in ((ix, self.n, lambda k: self.valid(j=k), self.xpos, self.isvar, self.ARG, 'argument'), (iy, self.m, lambda k: self.valid(i=k), self.ypos, lambda p: self.isvar(p, True), self.IV, 'result')):
                k = P(fresh('k', 'I')); s = st.fork(ge(k, 0), lt(k, n), valid(k)); p = pos(k)
                self.same(s.fork(isv(p)), lambda s: self.elem(s, v, k, 'i'), lambda s: val(p), 'the index of a variable ' + what)
                self.same(s.fork(Not(isv(p))), lambda s: self.elem(s, v, k, 'i'), lambda s: ZERO, 'the index of a parameter %s is zero' % what)
        return None
    def check(self):
        a = [Ptr('it', 0), Ptr('play', 0), Ptr('par', 0), Ptr('work', 0)]; self.dep = fresh_bool('dependency')
        self.E.contracts[r'player<double>::num_var\(\)'] = lambda E, st, a, ins, d: self.nonneg(P(var('num_var')))
        self.call('w_' + self.fn, a + {'for_jac': [self.dep, Ptr('S', 0)], 'rev_jac': [self.dep, Ptr('S', 0)], 'for_hes': [P(var('np1')), Ptr('J', 0), Ptr('S', 0)], 'rev_hes': [Ptr('J', 0), Ptr('rj', 0), Ptr('S', 0)]}[self.fn]); return self.finish()
JOBS = [(Forward, 'forward', 'atomic_forward_any'), (Dir, 'dir', 'atomic_forward_dir'), (Reverse, 'reverse', 'atomic_reverse'), (Reverse, 'sub_reverse', 'atomic_reverse on a subgraph')] + [(Sparsity, f, 'atomic_' + f) for f in ('for_jac', 'rev_jac', 'for_hes', 'rev_hes')]
def run(M, k): c, f, l = JOBS[k]; return c(M, f, l).check()
def add(ctx):
    M = ctx.module_of(load, 'atomic')
    if M is None: return
    for k, (c, f, l) in enumerate(JOBS): ctx.task(l, run, M, k)
