"""C06: contracts of one iteration of the sparsity sweeps (for_jac, rev_jac, rev_hes, for_hes) for every operator.

The vector of sets is an abstract class whose operations have their set-theoretic contract (the one that the real containers are
verified against in C07).  Ghost state: the sequence of set operations; S(k, e) is membership before the iteration.
A loop over the elements of a set, or over the arguments of a cumulative sum, is executed once for an arbitrary element; its effect
on membership is the union over all elements (every operation in the body only adds elements, and the set that is iterated does not
change: both are obligations), used at the instances that the post-condition names.
The post-conditions are lower bounds (a pattern contains every entry that can be non-zero):
  for_jac  S1(z) contains S0(a) for every argument a that z depends on;  other sets keep their elements
  rev_jac  S1(a) contains S0(a) and S0(z)
  rev_hes  R1(a) holds if R0(a) or R0(z);  H1(a) contains H0(a) and H0(z), and J(b) if R0(z) and the second derivative w.r.t. (a, b) can be
           non-zero;  the invariant that H(k) has elements only if R(k) is kept
  for_hes  J1(z) contains J0(a);  H1(e1) contains e2 if e1 is in J0(a), e2 in J0(b) and the second derivative w.r.t. (a, b) can be non-zero
and corresponding conditions for the sets of VecAD vectors, which only grow in a forward store and a reverse load."""
import re, sys, os, time
from terms import *
from symex import *
from fn import *
from iter import Iter
import build, record, llir
from optusage import opcodes, var_bool
def driver():
    return '''#include <cppad/cppad.hpp>
using namespace CppAD; using namespace CppAD::local;
struct AbsSet {
  struct const_iterator { const void* p_[2]; const_iterator(const AbsSet& v, size_t i); size_t operator*() const; const_iterator& operator++(); };
  void* p_; AbsSet(); ~AbsSet(); AbsSet(const AbsSet&);
  size_t n_set() const; size_t end() const; void resize(size_t n, size_t e); size_t number_elements(size_t i) const;
  void add_element(size_t i, size_t e); void post_element(size_t i, size_t e); void process_post(size_t i); bool is_element(size_t i, size_t e) const; void clear(size_t i);
  void assignment(size_t t, size_t s, const AbsSet& o); void binary_union(size_t t, size_t l, size_t r, const AbsSet& o); void binary_intersection(size_t t, size_t l, size_t r, const AbsSet& o);
};
extern "C" {
long K_opw = sizeof(op_code_var), K_pv_size = offsetof(pod_vector<size_t>, size_), K_pv_cap = offsetof(pod_vector<size_t>, capacity_), K_pv_data = offsetof(pod_vector<size_t>, data_);
size_t k_numarg(op_code_var op) { return NumArg(op); } size_t k_numres(op_code_var op) { return NumRes(op); }
void w_for_jac(const player<double>* p, bool d, size_t n, size_t nv, AbsSet& s) { sweep::for_jac<AbsSet,double,double>(p, d, n, nv, s, 0.); }
void w_rev_jac(const player<double>* p, bool d, size_t n, size_t nv, AbsSet& s) { sweep::rev_jac<double,AbsSet,double>(p, d, n, nv, s, 0.); }
void w_rev_hes(const player<double>* p, size_t nv, const AbsSet& j, bool* r, AbsSet& h) { sweep::rev_hes<double,AbsSet,double>(p, nv, j, r, h, 0.); }
void w_for_hes(const player<double>* p, size_t n, size_t nv, const pod_vector<bool>& sel, const AbsSet& r, AbsSet& h) { sweep::for_hes<double,AbsSet,double>(p, n, nv, sel, r, h, 0.); }
}
'''
def load(): return build.ir(driver(), 'sparsity', extra=['-fno-access-control'])

def kinds():
    t = {}
    for n, (k, _) in record.op_semantics().items(): t[n] = k
    for r in ('Eq', 'Le', 'Lt', 'Ne'):
        for k in ('pp', 'pv', 'vp', 'vv'):
            if not (k == 'vp' and r in ('Eq', 'Ne')): t[r + k + 'Op'] = k
    t.update({'DisOp': 'iv', 'ParOp': 'p', 'PriOp': 'icici', 'CExpOp': 'iicccc', 'InvOp': '', 'CSkipOp': '', 'CSumOp': '', 'LdpOp': 'apl', 'LdvOp': 'avl', 'StppOp': 'app', 'StpvOp': 'apv', 'StvpOp': 'avp', 'StvvOp': 'avv'})
    return {n: k for n, k in t.items() if n in opcodes()}
LINEAR = ('AbsOp', 'NegOp', 'AddpvOp', 'SubpvOp', 'SubvpOp', 'MulpvOp', 'DivvpOp', 'ZmulpvOp', 'ZmulvpOp', 'AddvvOp', 'SubvvOp')
def second(name, a):
    """pairs of arguments with a second derivative that is not identically zero"""
    if name in LINEAR or name in ('SignOp', 'DisOp') or not a: return []
    if name in ('MulvvOp', 'ZmulvvOp'): return [(a[0], a[1]), (a[1], a[0])]
    if name == 'DivvvOp': return [(a[0], a[1]), (a[1], a[0]), (a[1], a[1])]
    return [(x, y) for x in a for y in a]
class Sweep(Iter):
    FORWARD = True
    def __init__(self, M, fn, name, code):
        Iter.__init__(self, M, '%s %s' % (fn, name)); self.op = name; self.code = code; E = self.E; K = self.K; self.kind = kinds().get(name, '')
        self.narg = int(E.call(self.st.fork(), '@k_numarg', [P(code)])[0][1].cval()); self.nres = int(E.call(self.st.fork(), '@k_numres', [P(code)])[0][1].cval())
        self.nv = P(var('num_var')); self.n = P(var('n')); self.z = P(var('i_var')); self.np1 = self.n + 1; self.end = P(var('end')); self.cands = []; self.nidx = P(var('num_ind')); self.nvec = P(var('num_vecad'))
        self.assume(ge(self.n, 1), gt(self.nv, self.n), ge(self.z, max(self.nres, 0)), lt(self.z, self.nv), ge(self.end, 1), ge(self.nidx, 0), ge(self.nvec, 0))
        self.plain('args', 4, 'I', const=True); self.unsigned('args'); self.obj('play', const=True); self.obj('noargs')
        self.dep = var_bool('dependency')
        self.vargs = [j for j, c in enumerate(self.kind) if c == 'v']
        for j in self.vargs: self.variable(self.arg(j))
        if self.kind[:1] == 'a': self.assume(ge(self.nvec, 1), ge(self.arg(0), 1), lt(self.arg(0), self.nidx))
        for o in ('S', 'J', 'R', 'H'): self.obj(o)
        self.plain('rj', 1, 'I'); self.unsigned('rj'); self.plain('bsel', 1, 'I', const=True); self.unsigned('bsel')
        self.obj('sel', {K['pv_size']: self.n, K['pv_cap']: self.n, K['pv_data']: Ptr('bsel', 0)}, const=True)
        self.st.ghost.update({'ops': (), 'it': {}, 'in': False, 'V': None, 'fix': 0, 'role': {}})
        nothing = lambda E, st, a, ins, d: None
        cnt = lambda v: (lambda E, st, a, ins, d: v)
        U = lambda op: (lambda E, st, a, ins, d: self.setop(st, op(st, a)))
        w = lambda st, p: self.who(st, p)
        E.contracts.update({
            r'player<double>::num_var\(\)': cnt(self.nv), r'player<double>::num_var_vec_ind\(\)': cnt(self.nidx), r'player<double>::num_var_vecad\(\)': cnt(self.nvec),
            r'player<double>::num_par_all\(\)': lambda E, st, a, ins, d: self.nonneg(P(var('num_par'))), r'player<double>::par_ptr\(\)': lambda E, st, a, ins, d: Ptr('par', 0),
            r'player<double>::GetVecInd\(': lambda E, st, a, ins, d: self.nonneg(app('vecind', [P(a[1])], 'I')),
            r'player<double>::(begin|end)\(\)|atomic_op_work<double>::~?atomic_op_work\(\)': nothing,
            r'const_sequential_iterator::const_sequential_iterator\(|const_sequential_iterator::operator=\(': nothing,
            r'const_sequential_iterator::operator(\+\+|--)\(\)': self.step_it, r'const_sequential_iterator::correct_before_increment\(\)': self.fix,
            r'const_sequential_iterator::correct_after_decrement\(': self.fix, r'const_sequential_iterator::op_info\(': self.op_info, r'const_sequential_iterator::op_index\(': lambda E, st, a, ins, d: self.nonneg(P(fresh('op_index', 'I'))),
            r'pod_vector<.*>::(pod_vector|~pod_vector)\(\)': nothing, r'pod_vector<.*>::(extend|resize)\(': self.extend, r'pod_vector<.*>::pod_vector\(unsigned long\)': self.extend,
            r'AbsSet::AbsSet\(\)': self.new_set, r'AbsSet::(~AbsSet|resize|process_post)\(': nothing, r'AbsSet::end\(\)': lambda E, st, a, ins, d: self.end_of(st, a[0]),
            r'AbsSet::n_set\(\)': lambda E, st, a, ins, d: self.nonneg(P(var('n_set_' + w(st, a[0])))), r'AbsSet::number_elements\(': lambda E, st, a, ins, d: self.nonneg(P(fresh('nel', 'I'))),
            r'AbsSet::is_element\(': lambda E, st, a, ins, d: self.member(st.ghost['ops'], w(st, a[0]), P(a[1]), P(a[2])),
            r'AbsSet::(add|post)_element\(': U(lambda st, a: ('add', w(st, a[0]), P(a[1]), P(a[2]))), r'AbsSet::clear\(': U(lambda st, a: ('union', w(st, a[0]), P(a[1]), ())),
            r'AbsSet::assignment\(': U(lambda st, a: ('union', w(st, a[0]), P(a[1]), ((w(st, a[3]), P(a[2])),))),
            r'AbsSet::binary_union\(': U(lambda st, a: ('union', w(st, a[0]), P(a[1]), ((w(st, a[0]), P(a[2])), (w(st, a[4]), P(a[3]))))),
            r'AbsSet::binary_intersection\(': U(lambda st, a: ('inter', w(st, a[0]), P(a[1]), ((w(st, a[0]), P(a[2])), (w(st, a[4]), P(a[3]))))),
            r'AbsSet::const_iterator::const_iterator\(AbsSet const&, unsigned long\)': self.it_new, r'AbsSet::const_iterator::operator\*\(\)': self.it_get, r'AbsSet::const_iterator::operator\+\+\(\)': self.it_inc,
            r'call_atomic_|var_op::atomic_': self.outside,
        })
    def outside(self, E, st, a, ins, d): raise Unsupported('atomic function')
    def nonneg(self, x):
        c = ge(x, 0)
        if c not in self.pr.axioms: self.pr.axioms.append(c)
        return x
    def arg(self, k): return self.E.read_obj(self.st, self.st.mem['args'], P(k) * 4, 4, 'I')
    def variable(self, a, cond=TRUE): self.assume(Or(Not(cond), And(ge(a, 1), lt(a, self.z - (self.nres - 1)) if self.nres else lt(a, self.nv))))
    def who(self, st, p):
        if not isinstance(p, Ptr): raise Unsupported('vector of sets')
        return 'V' if p.obj == st.ghost['V'] else p.obj
    def end_of(self, st, p): return self.end
    def new_set(self, E, st, a, ins, d):
        if st.ghost['V'] is not None: raise Unsupported('more than one vector of sets')
        st.ghost['V'] = a[0].obj; return None
    def extend(self, E, st, a, ins, d):
        """a vector with n elements"""
        K = self.K; p = a[0]; nm = 'vec_%s_%s' % (re.sub(r'\W', '_', str(p.obj)), p.off); es = 1 if 'bool' in d else 4 if 'unsigned int' in d else 8
        st.mem[nm] = Obj(nm, nm, (), None, {'esize': es, 'sort': 'I'}); self.unsigned(nm)
        for off, v, so in ((K['pv_size'], P(a[1]), 'I'), (K['pv_cap'], P(a[1]), 'I'), (K['pv_data'], Ptr(nm, 0), 'P')): E.write(st, Ptr(p.obj, p.off + off), v, 8, so)
        st.ghost['role'] = dict(st.ghost['role'], **{'bool' if es == 1 else 'index': nm}); return P(0) if 'extend' in d else None
    def step_it(self, E, st, a, ins, d):
        if st.ghost['in']: st.ghost['step'] = st.ghost.get('step', 0) + (1 if '++' in d else -1)
        return a[0]
    def fix(self, E, st, a, ins, d):
        st.ghost['fix'] += 1
        if 'after' in d: E.write(st, a[1], Ptr('args', 0), 8, 'P')
        return None
    def op_info(self, E, st, a, ins, d):
        it, op, arg, iv = a[:4]; inl = st.ghost['in']
        c = self.code if inl else opcodes()['BeginOp' if self.FORWARD else 'EndOp']
        E.write(st, op, P(c), self.K['opw'], 'I'); E.write(st, arg, Ptr('args' if inl and (self.FORWARD or self.op not in ('CSumOp', 'CSkipOp')) else 'noargs', 0), 8, 'P')
        E.write(st, iv, self.z if inl else ZERO, 8, 'I'); return None
    # ------------------------------------------------------------ sets
    def setop(self, st, x): st.ghost['ops'] = st.ghost['ops'] + (x,); return None
    def S0(self, o, k, e): return i2b(app('S_' + o, [P(k), P(e)], 'I'))
    def member(self, ops, o, k, e, base=None, upper=False):
        """membership after the operations; a lower bound at the instances self.cands (or an upper bound) if there are loops"""
        if not ops: return (base or self.S0)(o, k, e)
        x = ops[-1]; r = ops[:-1]; rec = lambda o, k, e: self.member(r, o, k, e, base, upper)
        if x[0] == 'each':
            w, guard, body = x[1:4]; f = And(guard, self.member(body, o, k, e, lambda o, k, e: self.member(r, o, k, e, base, upper), upper))
            if upper: return Or(rec(o, k, e), f)
            return Or(rec(o, k, e), *[subst(f, {list(w.vars())[0]: P(c)}) for c in self.cands])
        if x[1] != o: return rec(o, k, e)
        hit = eq(P(k), x[2])
        if hit is FALSE: return rec(o, k, e)
        if x[0] == 'add': new = Or(rec(o, k, e), eq(P(e), x[3]))
        elif x[0] == 'inter': new = And(*[rec(so, sk, e) for so, sk in x[3]])
        else: new = Or(*[rec(so, sk, e) for so, sk in x[3]]) if x[3] else FALSE
        if hit is TRUE: return new
        return Or(And(hit, new), And(Not(hit), rec(o, k, e)))
    # ------------------------------------------------------------ iterators and loops
    def it_new(self, E, st, a, ins, d):
        st.ghost['it'] = dict(st.ghost['it']); st.ghost['it'][a[0]] = (self.who(st, a[1]), P(a[2]), 'first', self.nonneg(P(fresh('first', 'I')))); return None
    def it_get(self, E, st, a, ins, d): return st.ghost['it'][a[0]][3]
    def it_inc(self, E, st, a, ins, d):
        o, k, pos, v = st.ghost['it'][a[0]]
        if pos != 'cur': raise Unsupported('increment of an iterator outside of a loop')
        st.ghost['it'] = dict(st.ghost['it']); st.ghost['it'][a[0]] = (o, k, 'next', self.nonneg(P(fresh('next', 'I')))); return a[0]
    def loop(self, E, st, env, f, L, prev):
        if not st.ghost['in']: return None
        inner = {b for l in llir.loops(f).values() if l.header != L.header and l.header in L.body for b in l.body}
        calls = [i for b in L.body if b not in inner for i in f.blocks[b].ins if i.op == 'call' and i.a[0][0] == 'glob']
        isit = any('AbsSet::const_iterator::operator++' in E.M.dem.get(i.a[0][1], '') for i in calls)
        H, init = E.loop_entry(st, env, f, L, prev); w = P(fresh('w', 'I')); self.nonneg(w); ops0 = st.ghost['ops']; e1 = dict(env); roles = {}
        s1 = st.fork(); s1.ghost['ops'] = ()
        if isit:
            its = [p for p, x in st.ghost['it'].items() if x[2] == 'first' and x[3] in init.values()] or [p for p, x in st.ghost['it'].items() if x[2] == 'first']
            if len(its) != 1: raise Unsupported('iterators of a loop')
            p = its[0]; o, k, _, t = st.ghost['it'][p]; s1.ghost['it'] = dict(st.ghost['it']); s1.ghost['it'][p] = (o, k, 'cur', w)
            for ph in H.phis:
                if init[ph.res] == t: roles[ph.res] = 'el'; e1[ph.res] = w
                else: e1[ph.res] = init[ph.res]
            inset = self.member(ops0, o, k, w); s1 = s1.fork(lt(w, self.end), inset)
        else:
            for ph in H.phis:
                if ph.ty[0] == 'int' and ph.ty[1] > 1 and 'i' not in roles.values() and not isinstance(init[ph.res], Cond): roles[ph.res] = 'i'; e1[ph.res] = w; lo = P(init[ph.res])
                else: e1[ph.res] = init[ph.res]
            if len(roles) != 1 or lo.cval() is None: return None
            s1 = s1.fork(ge(w, lo))
            if self.op == 'CSumOp': self.sum_arg(w)
        mem0 = {n: ob for n, ob in s1.mem.items()}
        outs = [x for x in E.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header) if self.pr.feasible(x.st.pc)]
        each = []
        for x in outs:
            new = x.st.ghost['ops']; back = x.kind == 'edge' and x.data[1] == L.header
            ch = {n: ob for n, ob in x.st.mem.items() if n in mem0 and (ob.upds != mem0[n].upds or ob.base != mem0[n].base)}
            if not back:
                if new or ch: raise Unsupported('a loop is left inside its body')
                if isit or x.kind == 'ret' or x.data[0] != L.header: raise Unsupported('a loop is left early')
                continue
            for ph in H.phis:
                v = [E.coerce(E.const(v, ph.ty, x.st, x.env), ph.ty) for v, pb in ph.a if pb == x.data[0]][0]; r = roles.get(ph.res)
                if r == 'el' and v != x.st.ghost['it'][p][3]: raise Unsupported('loop over a set')
                if r == 'i' and v != w + 1: raise Unsupported('counted loop')
                if r is None and v != init[ph.res]: raise Unsupported('loop variable')
            if isit and x.st.ghost['it'][p][2] != 'next': raise Unsupported('loop over a set does not advance')
            guard = And(*[c for c in x.st.pc if c not in st.pc])
            for y in self.flat(new):
                if y[0] == 'add': continue
                self.true(y[0] == 'union' and (y[1], y[2]) in y[3], 'operations in a loop only add elements', str(y))
                if isit: self.holds(x.st, TRUE if y[1] != o else Not(eq(y[2], k)), 'the set that is iterated does not change')
            for n, ob in ch.items():
                if n != 'rj': raise Unsupported('memory changed by a loop')
                kk = P(fresh('kk', 'I')); self.holds(x.st.fork(ge(kk, 0)), Or(Not(self.flag(x.st, mem0[n], kk)), self.flag(x.st, ob, kk)), 'flags are only set in a loop')
            each.append(('each', w, guard, new, {n: (mem0[n], ob) for n, ob in ch.items()}, isit))
        s2 = st.fork(); s2.ghost['ops'] = ops0 + tuple(each)
        for x in each:
            for n in x[4]:
                ob = s2.mem[n]; nb = 'loop%d:%s' % (id(L) % 99991, n); s2.mem[n] = Obj(n, nb, (), ob.size, ob.meta)
                def rd(E, s, o, off, w, sort): raise Unsupported('flags are read after a loop')
                E.bases[nb] = rd
        # exit
        e2 = dict(env)
        if isit: s2.ghost['it'] = dict(s2.ghost['it']); s2.ghost['it'][p] = (o, k, 'end', self.end)
        x = P(fresh('x', 'I'))
        for ph in H.phis: e2[ph.res] = self.end if roles.get(ph.res) == 'el' else x if roles.get(ph.res) == 'i' else init[ph.res]
        if not isit: s2 = s2.fork(ge(x, lo))
        out = []
        for y in E.run(s2, e2, f, L.header, prev, {L.header}, skip_loop=L.header):
            if not self.pr.feasible(y.st.pc): continue
            if y.kind == 'edge' and y.data[1] in L.body:
                if isit: raise Unsupported('a loop over a set does not stop at its end')
                continue
            if y.kind == 'ret': out.append((y.st, y.env, y.data, None))
            else: out.append((y.st, y.env, y.data[0], y.data[1]))
        if not isit: # the exit is the first index that fails the test of the header: only the test ends the loop
            out = [(s, e, a, b) for s, e, a, b in out if s.ghost['ops'] == s2.ghost['ops']]
        if not out: raise Unsupported('loop exit')
        return out
    def flat(self, ops):
        for x in ops:
            if x[0] == 'each': yield from self.flat(x[3])
            else: yield x
    def sum_arg(self, j):
        self.assume(Or(lt(P(j), 5), ge(P(j), self.arg(2)), And(ge(self.arg(P(j)), 1), lt(self.arg(P(j)), self.z))))
    def flag(self, st, ob, k): return self.truth(st, self.E.read_obj(st, ob, P(k), 1, 'I'))
    def truth(self, st, v):
        if isinstance(v, Cond): return v
        if len(v.d) == 1:
            (m, c), = v.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = ATOMS[m[0][0]]
                if a.kind == 'ITE': return Or(And(a.args[0], self.truth(st, a.args[1])), And(Not(a.args[0]), self.truth(st, a.args[2])))
                if a.kind == 'B2I': return a.args[0]
        return self.E.cast(st, 'trunc', v, ('int', 8), ('int', 1))
    def R(self, s, st, k):
        """flag after: lower bound"""
        ob = s.mem['rj']
        if not ob.base.startswith('loop'): return self.flag(st, ob, k)
        ev = [x for x in s.ghost['ops'] if x[0] == 'each' and 'rj' in x[4]]
        if ob.upds or len({id(x[4]['rj'][0]) for x in ev}) != 1: raise Unsupported('flags')
        r = [self.flag(st, ev[0][4]['rj'][0], k)]
        for x in ev:
            f = And(x[2], self.flag(st, x[4]['rj'][1], k)); r += [subst(f, {list(x[1].vars())[0]: P(c)}) for c in self.cands]
        return Or(*r)
    def RV(self, s, st, v):
        n = st.ghost['role'].get('bool')
        if n is None: raise Unsupported('flags of the vectors')
        return self.flag(st, s.mem[n], v)
    # ------------------------------------------------------------ one iteration
    def prep(self, st, env, f, ph):
        st = st.fork(); pv = {}; self.cnt = None
        if self.kind[:1] == 'a' and 'index' not in st.ghost['role']: return []
        for r, (ty, v) in ph.items():
            if ty == ('int', 1): pv[r] = v
            elif ty == ('int', 8): pv[r] = v
            elif ty[0] == 'int' and ty[1] == 64 and self.cnt is None and isinstance(v, Poly) and v == ZERO: self.cnt = r; pv[r] = self.nonneg(P(var('count')))
            elif ty[0] == 'int': pv[r] = self.nonneg(P(fresh('lv', 'I')))
            else: raise Unsupported('loop variable')
        for o in list(st.mem):
            if o == 'rj' or o in st.ghost['role'].values(): x = st.mem[o]; st.mem[o] = Obj(x.name, 'pre_' + o, (), x.size, x.meta); self.unsigned('pre_' + o)
        st.ghost.update({'in': True, 'ops': (), 'fix': 0, 'step': 0, 'it': {}}); return [(st, pv)]
    def run(self):
        self.k = P(var('k')); self.e = P(var('e')); self.j = P(var('j')); self.assume(ge(self.k, 0), ge(self.e, 0), lt(self.e, self.end))
        if self.op == 'CSumOp': self.assume(ge(self.j, 5), lt(self.j, self.arg(2))); self.sum_arg(self.j); self.cands = [self.j]
        res = self.iterate(self.WRAPPER, self.args(), r'::op_info\(', self.prep, inner=self.loop)
        for pre, pv, o, nx in res:
            st = o.st; self.true(st.ghost['step'] == (1 if self.FORWARD else -1), 'each iteration handles the next operator', str(st.ghost['step']))
            self.true(st.ghost['fix'] == (1 if self.op in ('CSumOp', 'CSkipOp') else 0), 'the length of operators with a variable number of arguments is taken into account', str(st.ghost['fix']))
            more = [v for r, v in nx.items() if isinstance(pv[r], Cond)] + [i2b(v) for r, v in nx.items() if isinstance(pv[r], Poly) and pv[r].cval() == 1]
            self.true(all(x is TRUE for x in more), 'the loop continues')
            self.post(pre, pv, st, nx)
        return self.done()
    def vec(self, pre, st):
        return self.E.read_obj(st, pre.mem[st.ghost['role']['index']], (self.arg(0) - 1) * 8, 8, 'I')
    def deps(self, st):
        """[(condition, argument)] that the derivative of the result can depend on; the same for dependency"""
        A = lambda j: self.arg(j)
        if self.op == 'CSumOp': d = [(TRUE, A(self.j))]; return d, d
        if self.op == 'CExpOp':
            bit = lambda b: Not(eq(self.E.bitop(st, 'and', A(1), P(b), 32), 0))
            d = [(bit(4), A(4)), (bit(8), A(5))]; return d, d + [(bit(1), A(2)), (bit(2), A(3))]
        if self.op in ('SignOp', 'DisOp'): return [], [(TRUE, A(j)) for j in self.vargs]
        if self.kind[:1] == 'a' or self.nres == 0: return [], []
        d = [(TRUE, A(j)) for j in self.vargs]; return d, d
    def bits(self):
        if self.op == 'CExpOp':
            for b, j in ((1, 2), (2, 3), (4, 4), (8, 5)): self.variable(self.arg(j), Not(eq(self.E.bitop(self.st, 'and', self.arg(1), P(b), 32), 0)))
    def have(self, st, cond, what): self.holds(st, cond, what)
class ForJac(Sweep):
    WRAPPER = 'w_for_jac'
    def args(self): self.bits(); return [Ptr('play', 0), self.dep, self.n, self.nv, Ptr('S', 0)]
    def post(self, pre, pv, st, nx):
        M = lambda o, k, e: self.member(st.ghost['ops'], o, k, e); S0 = self.S0; k, e, z = self.k, self.e, self.z
        self.have(st, Or(And(eq(k, z), self.nres > 0 and self.op != 'InvOp' and TRUE or FALSE), Not(S0('S', k, e)), M('S', k, e)), 'the patterns of other variables keep their elements')
        d, dd = self.deps(st)
        for i, (c, a) in enumerate(d): self.have(st, Or(Not(And(c, S0('S', a, e))), M('S', z, e)), 'the pattern of the result contains that of argument %d' % i)
        for i, (c, a) in enumerate(dd): self.have(st, Or(Not(And(self.dep, c, S0('S', a, e))), M('S', z, e)), 'the dependency of the result contains that of argument %d' % i)
        self.have(st, Or(Not(S0('V', k, e)), M('V', k, e)), 'the patterns of vectors keep their elements')
        if self.kind[:1] == 'a':
            v = self.vec(pre, st)
            if self.nres: self.have(st, Or(Not(S0('V', v, e)), M('S', z, e)), 'a load has the pattern of its vector')
            elif self.kind[2] == 'v': self.have(st, Or(Not(S0('S', self.arg(2), e)), M('V', v, e)), 'the pattern of the vector contains that of the value that is stored')
            if self.kind[1] == 'v': self.have(st, Or(Not(self.dep), Not(S0('S', self.arg(1), e)), M('S', z, e) if self.nres else M('V', v, e)), 'dependency contains that of the index')
class RevJac(Sweep):
    WRAPPER = 'w_rev_jac'; FORWARD = False
    def args(self): self.bits(); return [Ptr('play', 0), self.dep, self.n, self.nv, Ptr('S', 0)]
    def post(self, pre, pv, st, nx):
        M = lambda o, k, e: self.member(st.ghost['ops'], o, k, e); S0 = self.S0; k, e, z = self.k, self.e, self.z
        self.have(st, Or(And(eq(k, z), TRUE if self.nres and self.op != 'InvOp' else FALSE), Not(S0('S', k, e)), M('S', k, e)), 'the patterns of other variables keep their elements')
        d, dd = self.deps(st)
        for i, (c, a) in enumerate(d): self.have(st, Or(Not(And(c, S0('S', z, e))), M('S', a, e)), 'the pattern of argument %d contains that of the result' % i)
        for i, (c, a) in enumerate(dd): self.have(st, Or(Not(And(self.dep, c, S0('S', z, e))), M('S', a, e)), 'the dependency of argument %d contains that of the result' % i)
        self.have(st, Or(Not(S0('V', k, e)), M('V', k, e)), 'the patterns of vectors keep their elements')
        if self.kind[:1] == 'a':
            v = self.vec(pre, st); src = S0('S', z, e) if self.nres else S0('V', v, e)
            if self.nres: self.have(st, Or(Not(src), M('V', v, e)), 'the pattern of the vector contains that of the load')
            elif self.kind[2] == 'v': self.have(st, Or(Not(src), M('S', self.arg(2), e)), 'the pattern of a value that is stored contains that of the vector')
            if self.kind[1] == 'v': self.have(st, Or(Not(self.dep), Not(src), M('S', self.arg(1), e)), 'dependency of the index')
class RevHes(Sweep):
    WRAPPER = 'w_rev_hes'; FORWARD = False
    def args(self):
        self.bits(); return [Ptr('play', 0), self.nv, Ptr('J', 0), Ptr('rj', 0), Ptr('H', 0)]
    def post(self, pre, pv, st, nx):
        ops = st.ghost['ops']; M = lambda o, k, e: self.member(ops, o, k, e); S0 = self.S0; k, e, z = self.k, self.e, self.z
        R0 = lambda k: self.flag(st, pre.mem['rj'], k); R1 = lambda k: self.R(st, st, k)
        inv = lambda k, e: Or(Not(S0('H', k, e)), R0(k)); veced = 'bool' in st.ghost['role']
        vinv = (lambda v, e: Or(Not(S0('V', v, e)), self.RV(pre, st, v))) if veced else (lambda v, e: TRUE)
        facts = [inv(k, e), inv(z, e), vinv(k, e)]; d, dd = self.deps(st)
        v = self.vec(pre, st) if self.kind[:1] == 'a' else None
        if v is not None: facts.append(vinv(v, e))
        s = st.fork(*facts); me = And(eq(k, z), TRUE if self.nres and self.op != 'InvOp' else FALSE)
        self.have(s, Or(me, Not(S0('H', k, e)), M('H', k, e)), 'the patterns of other variables keep their elements')
        self.have(s, Or(me, Not(R0(k)), R1(k)), 'the variables that are included stay included')
        self.true(all(x[1] != 'J' for x in self.flat(ops)), 'the forward pattern does not change')
        for i, (c, a) in enumerate(d):
            self.have(s, Or(Not(And(c, R0(z))), R1(a)), 'argument %d of a variable that is included is included' % i)
            self.have(s, Or(Not(And(c, S0('H', z, e))), M('H', a, e)), 'the pattern of argument %d contains that of the result' % i)
        if self.op not in ('CSumOp', 'CExpOp') and self.nres and self.kind[:1] != 'a':
            for x, y in second(self.op, [j for j in self.vargs]):
                self.have(s, Or(Not(And(R0(z), S0('J', self.arg(y), e))), M('H', self.arg(x), e)), 'second derivative with respect to arguments %d and %d' % (x, y))
        if v is not None:
            self.have(s, Or(Not(S0('V', k, e)), M('V', k, e)), 'the patterns of vectors keep their elements'); self.have(s, Or(Not(self.RV(pre, st, k)), self.RV(st, st, k)), 'vectors that are included stay included')
            if self.nres: self.have(s, And(Or(Not(R0(z)), self.RV(st, st, v)), Or(Not(S0('H', z, e)), M('V', v, e))), 'the vector of a load')
            elif self.kind[2] == 'v': self.have(s, And(Or(Not(self.RV(pre, st, v)), R1(self.arg(2))), Or(Not(S0('V', v, e)), M('H', self.arg(2), e))), 'the value that is stored')
            self.have(s, Or(Not(self.member(ops, 'V', k, e, None, True)), self.RV(st, st, k)), 'the pattern of a vector has elements only if it is included')
        if self.op == 'CSumOp':
            ws = [x[1] for x in ops if x[0] == 'each']; old = self.cands
            for x in self.flat(ops):
                for so, sk in x[3]:
                    if (so, sk) != (x[1], x[2]): self.holds(st.fork(*[And(ge(w, 5), lt(w, self.arg(2))) for w in ws]), Not(eq(sk, x[2])) if so == x[1] else TRUE, 'the sets that a cumulative sum reads do not change')
            self.cands = old + ws; up = self.member(ops, 'H', k, e, None, True); self.have(s, Or(me, Not(up), R1(k)), 'a variable has elements only if it is included'); self.cands = old
        else: self.have(s, Or(me, Not(self.member(ops, 'H', k, e, None, True)), R1(k)), 'a variable has elements only if it is included')
class ForHes(Sweep):
    WRAPPER = 'w_for_hes'
    def args(self):
        self.bits(); self.assume(eq(self.end, self.np1)); self.e2 = P(var('e2')); self.assume(ge(self.e2, 0), lt(self.e2, self.end)); self.cands = self.cands + [self.e, self.e2]
        if self.op == 'CSumOp': self.sum_arg(self.e); self.sum_arg(self.e2)
        return [Ptr('play', 0), self.n, self.nv, Ptr('sel', 0), Ptr('R', 0), Ptr('S', 0)]
    def post(self, pre, pv, st, nx):
        ops = st.ghost['ops']; M = lambda k, e: self.member(ops, 'S', k, e); MV = lambda k, e: self.member(ops, 'V', k, e); S0 = self.S0; k, e, z, np1, e2 = self.k, self.e, self.z, self.np1, self.e2
        inc = S0('R', z, ZERO) if self.nres else TRUE; J0 = lambda a, e: S0('S', np1 + a, e)
        self.true(all(x[1] != 'R' for x in self.flat(ops)), 'the reverse pattern does not change')
        me = And(eq(k, np1 + z), TRUE if self.nres else FALSE)
        self.have(st, Or(me, Not(S0('S', k, e)), M(k, e)), 'the other patterns keep their elements')
        self.have(st, Or(Not(S0('V', k, e)), MV(k, e)), 'the patterns of vectors keep their elements')
        d, dd = self.deps(st)
        for i, (c, a) in enumerate(d): self.have(st, Or(Not(And(inc, c, J0(a, e))), M(np1 + z, e)), 'the pattern of the result contains that of argument %d' % i)
        if self.op not in ('CSumOp', 'CExpOp') and self.nres and self.kind[:1] != 'a':
            for x, y in second(self.op, self.vargs):
                self.have(st, Or(Not(And(inc, J0(self.arg(x), e), J0(self.arg(y), e2))), M(e, e2)), 'second derivative with respect to arguments %d and %d' % (x, y))
        cnt = nx[self.cnt] if self.cnt else None
        if self.op == 'InvOp':
            if cnt is None: raise Unsupported('number of independent variables')
            self.have(st, Or(Not(And(inc, self.flag(st, st.mem['bsel'], pv[self.cnt]), lt(z, np1))), M(np1 + z, z)), 'an independent variable depends on itself')
            self.eq(st, cnt, P(pv[self.cnt]) + 1, 'independent variables are counted')
        elif cnt is not None: self.eq(st, cnt, pv[self.cnt], 'only independent variables are counted')
        if self.kind[:1] == 'a':
            v = self.vec(pre, st)
            if self.nres: self.have(st, Or(Not(And(inc, S0('V', v, e))), M(np1 + z, e)), 'a load has the pattern of its vector')
            elif self.kind[2] == 'v': self.have(st, Or(Not(J0(self.arg(2), e)), MV(v, e)), 'the pattern of the vector contains that of the value that is stored')
SWEEPS = {'for_jac': ForJac, 'rev_jac': RevJac, 'rev_hes': RevHes, 'for_hes': ForHes}
def jobs(): return [(s, n) for s in SWEEPS for n in kinds()]
def job(M, s, n): return SWEEPS[s](M, s, n, opcodes()[n]).run()
def add(ctx):
    M = ctx.module_of(load, 'sparsity')
    if M is not None:
        for s, n in jobs(): ctx.task('%s %s' % (s, n), job, M, s, n)
if __name__ == '__main__':
    M = load(); sel_ = sys.argv[1:]
    for kd, n in jobs():
        if sel_ and not any(re.search(p, kd + ' ' + n) for p in sel_): continue
        t0 = time.time()
        try: l = job(M, kd, n); print('ok  ', kd, n, len(l), '%.1f s' % (time.time() - t0))
        except (ObligationFailed, Unsupported) as x: print(type(x).__name__, kd, n, str(x)[:700], '%.1f s' % (time.time() - t0))
        sys.stdout.flush()
