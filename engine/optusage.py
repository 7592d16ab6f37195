"""C09: contract of one iteration of the reverse activity analysis (get_op_usage) for every operator.

Ghost state: members (k, e) of the sets of conditions; S(k, e) is the value before the iteration.
An operator is kept if its result is used, or by its kind (independent variables, comparisons with compare_op, print with
print_for_op, stores to a vector that is used).  Post-condition of an iteration at operator i:
  1 every variable argument of a kept operator is used;  2 no use is forgotten;
  3 an operator that only occurs in a cumulative sum is an addition or subtraction below an addition or subtraction, and had no other use;
  4 a condition (j, b) is in the set of an operator only if it was there or the operator was unused; and then each kept user has it
    or is conditional expression j and does not need the operator when the comparison is b;
  5 the vector of a used load is used, and no use of a vector is forgotten;  6 conditional expressions are numbered in the order of the sequence"""
import re, sys, os, time
from terms import *
from symex import *
from fn import *
from iter import Iter
import build, record
def driver():
    return '''#include <cppad/cppad.hpp>
using namespace CppAD; using namespace CppAD::local; using namespace CppAD::local::optimize;
extern "C" {
typedef CppAD::vector<size_t> V_;
long K_no = no_usage, K_yes = yes_usage, K_csum = csum_usage, K_usize = sizeof(usage_t), K_opw = sizeof(op_code_var), K_v_len = offsetof(V_, length_), K_v_data = offsetof(V_, data_);
void w_usage(bool cs, bool co, bool pf, bool cum, const player<double>* play, const play::const_random_iterator<addr_t>& it, const pod_vector<size_t>& dep, pod_vector<addr_t>& c2o, sparse::list_setvec& cset, pod_vector<bool>& vu, pod_vector<usage_t>& ou)
{ get_op_usage<addr_t,double>(cs, co, pf, cum, play, it, dep, c2o, cset, vu, ou); }
bool w_prev(size_t lim, const player<double>* play, const play::const_random_iterator<addr_t>& it, sparse::list_setvec& cset, pod_vector<addr_t>& prev, pod_vector<usage_t>& ou)
{ return get_op_previous<addr_t,double>(lim, play, it, cset, prev, ou); }
}
'''
def load(): return build.ir(driver(), 'optusage', extra=['-fno-access-control'])
ADDSUB = ('AddpvOp', 'AddvvOp', 'SubpvOp', 'SubvpOp', 'SubvvOp')
def opcodes(): return record.enum_names('include/cppad/local/op_code_var.hpp', 'op_code_var')
def table():
    t = {}
    for n, (k, _) in record.op_semantics().items(): t[n] = ('result', [i for i, c in enumerate(k) if c == 'v'])
    t['DisOp'] = ('result', [1]); t['ParOp'] = ('never', []); t['CSkipOp'] = ('never', [])
    for n in ('InvOp', 'BeginOp', 'EndOp'): t[n] = ('always', [])
    for r in ('Eq', 'Le', 'Lt', 'Ne'):
        for k in ('pp', 'pv', 'vp', 'vv'):
            if k == 'vp' and r in ('Eq', 'Ne'): continue
            t[r + k + 'Op'] = ('compare', [i for i, c in enumerate(k) if c == 'v'])
    t['PriOp'] = ('print', []); t['CExpOp'] = ('cexp', [])
    t['LdpOp'] = ('load', []); t['LdvOp'] = ('load', [1])
    for n, v in (('pp', []), ('pv', [2]), ('vp', [1]), ('vv', [1, 2])): t['St%sOp' % n] = ('store', v)
    return {n: x for n, x in t.items() if n in opcodes()}
class U(Iter):
    def __init__(self, M, name, code):
        Iter.__init__(self, M, 'get_op_usage %s' % name); self.op = name; self.code = code; E = self.E; self.kind, self.vargs = table()[name]
        K = self.K; self.usize = K['usize']; self.no, self.yes, self.csum = K['no'], K['yes'], K['csum']
        self.cs, self.co, self.pf, self.cum = [var_bool(x) for x in ('cond_skip', 'compare_op', 'print_for_op', 'csum_op')]
        self.obj('play', const=True); self.obj('it', const=True); self.obj('cset'); self.st.ghost['set'] = (); self.st.ghost['nset'] = ZERO; self.st.ghost['proc'] = ()
        self.nop = P(var('num_op')); self.i = P(var('i')); self.ci0 = P(var('ci0')); self.assume(ge(self.i, 0), lt(self.i, self.nop), ge(self.ci0, 0))
        for n, b, es, so in (('c2o', 'bc2o', 4, 'I'), ('vu', 'bvu', 1, 'B'), ('ou', 'bou', self.usize, 'I'), ('dep', 'bdep', 8, 'I')):
            self.plain(b, es, so, const=(n == 'dep'))
            if so == 'I': self.unsigned(b)
            self.obj(n, {0: P(var('n_' + n)), 8: P(var('c_' + n)), 16: Ptr(b, 0)}, const=(n == 'dep')); self.assume(ge(P(var('n_' + n)), 0))
        self.plain('a2v', 8, 'I'); self.unsigned('a2v')
        def counts(name):
            v = P(var(name)); self.assume(ge(v, 0)); return lambda E, st, a, ins, d: v
        nothing = lambda E, st, a, ins, d: None
        E.contracts.update({
            r'player<double>::num_var_op\(\)': lambda E, st, a, ins, d: self.nop, r'const_random_iterator<unsigned int>::num_op\(\)': lambda E, st, a, ins, d: self.nop,
            r'player<double>::num_par_all\(\)': counts('num_par'), r'player<double>::num_var_vecad\(\)': counts('num_vecad'), r'player<double>::num_var_vec_ind\(\)': counts('num_ind'),
            r'player<double>::par_ptr\(\)': lambda E, st, a, ins, d: Ptr('par', 0),
            r'player<double>::GetVecInd\(': lambda E, st, a, ins, d: self.nonneg(app('vecind', [P(a[1])], 'I')),
            r'player<double>::GetOp\(': lambda E, st, a, ins, d: self.opc(a[1]),
            r'const_random_iterator<unsigned int>::get_op\(': lambda E, st, a, ins, d: self.opc(a[1]),
            r'const_random_iterator<unsigned int>::var2op\(': lambda E, st, a, ins, d: self.v2o(a[1]),
            r'const_random_iterator<unsigned int>::op_info\(': self.op_info,
            r'size_setvec<unsigned long>::n_set\(\)': lambda E, st, a, ins, d: st.ghost['nset'],
            r'size_setvec<unsigned long>::resize\(': self.set_resize, r'size_setvec<unsigned long>::process_post\(': self.post,
            r'size_setvec<unsigned long>::assignment\(': lambda E, st, a, ins, d: self.set_op(st, ('assign', P(a[1]), P(a[2]))),
            r'size_setvec<unsigned long>::binary_intersection\(': lambda E, st, a, ins, d: self.set_op(st, ('inter', P(a[1]), P(a[2]), P(a[3]))),
            r'size_setvec<unsigned long>::(post|add)_element\(': lambda E, st, a, ins, d: self.set_op(st, ('add', P(a[1]), P(a[2]))),
            r'pod_vector<.*>::resize\(': nothing, r'CppAD::vector<unsigned long>::vector\(unsigned long\)': self.newvec,
            r'CppAD::vector<.*>::(vector\(\)|~vector\(\)|resize\()': nothing,
        })
        self.plain('par', 8, 'R', const=True); self.plain('args', 4, 'I', const=True); self.unsigned('args')
        for v in self.vargs: self.assume(lt(self.v2o(self.arg(v)), self.i))
        if self.kind == 'cexp': self.arg_ifs = [(1, 2), (2, 3), (4, 4), (8, 5)]
        elif self.kind == 'print': self.arg_ifs = [(1, 1), (2, 3)]
        else: self.arg_ifs = []
        for b, v in self.arg_ifs: self.assume(lt(self.v2o(self.arg(v)), self.i))
    def nonneg(self, x):
        c = ge(x, 0)
        if c not in self.pr.axioms: self.pr.axioms.append(c)
        return x
    def arg(self, k): return self.E.read_obj(self.st, self.st.mem['args'], P(4 * k), 4, 'I')
    def opc(self, i):
        if P(i) == self.i: return P(self.code)
        return self.nonneg(app('opc', [P(i)], 'I'))
    def v2o(self, v):
        x = app('v2o', [P(v)], 'I')
        for c in (ge(x, 0), lt(x, self.nop)):
            if c not in self.pr.axioms: self.pr.axioms.append(c)
        return x
    def op_info(self, E, st, a, ins, d):
        it, i, op, arg, iv = a[:5]
        if P(i) != self.i: raise Unsupported('operator at %s' % i)
        E.write(st, op, P(self.code), self.K['opw'], 'I'); E.write(st, arg, Ptr('args', 0), 8, 'P'); E.write(st, iv, self.nonneg(P(var('i_var'))), 8, 'I'); return None
    def newvec(self, E, st, a, ins, d):
        E.write(st, Ptr(a[0].obj, a[0].off + self.K['v_len']), P(a[1]), 8, 'I'); E.write(st, Ptr(a[0].obj, a[0].off + self.K['v_data']), Ptr('a2v', 0), 8, 'P'); return None
    def set_resize(self, E, st, a, ins, d): st.ghost['nset'] = P(a[1]); st.ghost['set'] = (); return None
    def post(self, E, st, a, ins, d): st.ghost['proc'] = st.ghost['proc'] + (P(a[1]),); return None
    def processed(self, st, k): return any(k == x or self.pr.prove(st.pc, eq(k, x)) for x in st.ghost['proc'])
    def set_op(self, st, x):
        if x[0] == 'inter':
            for k in x[2:]: self.true(self.processed(st, k), 'the sets that are intersected have no posted elements', str(k))
        if x[0] == 'assign': self.true(self.processed(st, x[2]), 'a set that is copied has no posted elements', str(x[2]))
        if x[0] == 'add': st.ghost['proc'] = tuple(k for k in st.ghost['proc'] if self.pr.prove(st.pc, Not(eq(k, x[1]))))
        st.ghost['set'] = st.ghost['set'] + (x,); return None
    def S0(self, k, e): return i2b(app('S', [P(k), P(e)], 'I'))
    def member(self, ops, k, e):
        if not ops: return self.S0(k, e)
        o = ops[-1]; r = ops[:-1]; hit = eq(P(k), o[1])
        if hit is FALSE: return self.member(r, k, e)
        if o[0] == 'assign': new = self.member(r, o[2], e)
        elif o[0] == 'inter': new = And(self.member(r, o[2], e), self.member(r, o[3], e))
        else: new = Or(self.member(r, k, e), eq(P(e), o[2]))
        if hit is TRUE: return new
        return Or(And(hit, new), And(Not(hit), self.member(r, k, e)))
    def usage(self, st, k): return self.E.read_obj(st, st.mem['bou'], P(k) * self.usize, self.usize, 'I')
    def vused(self, st, k):
        return self.E.cast(st, 'trunc', self.E.read_obj(st, st.mem['bvu'], P(k), 1, 'I'), ('int', 8), ('int', 1))
    def prep(self, st, env, f, ph):
        pv = {}; roles = {}
        for r, (ty, v) in ph.items():
            if isinstance(v, Poly) and v == self.nop: roles['i'] = r; pv[r] = self.i + 1
            elif isinstance(v, Poly) and v.cval() is None:
                if 'ci' in roles: raise Unsupported('roles of the loop variables')
                roles['ci'] = r; pv[r] = self.ci0
            elif ty[0] == 'int': pv[r] = self.nonneg(P(fresh('lv', 'I')))
            else: raise Unsupported('loop variable')
        if 'i' not in roles: raise Unsupported('no operator index')
        st = st.fork()
        for o in ('bou', 'bvu', 'bc2o', 'a2v'): x = st.mem[o]; st.mem[o] = Obj(x.name, 'pre_' + o, (), x.size, x.meta)
        for b in ('pre_bou', 'pre_bc2o', 'pre_a2v'): self.unsigned(b)
        st.ghost['set'] = (); st.ghost['proc'] = (); st.ghost['pre'] = None
        st.ghost['roles'] = roles
        if self.kind == 'cexp' and 'ci' in roles:
            ini = ph[roles['ci']][1]; st = st.fork(And(ge(self.ci0, 1), le(self.ci0, ini)))
        elif 'ci' in roles: st = st.fork(le(self.ci0, ph[roles['ci']][1]))
        return [(st, pv)] if self.pr.feasible(st.pc) else []
    def check(self):
        k = P(fresh('k', 'I')); e = P(fresh('e', 'I')); self.assume(ge(k, 0), lt(k, self.nop), ge(e, 0))
        res = self.iterate('w_usage', [self.cs, self.co, self.pf, self.cum] + [Ptr(x, 0) for x in ('play', 'it', 'dep', 'c2o', 'cset', 'vu', 'ou')], r'::op_info\(', self.prep, inner=self.unroll())
        for pre, pv, o, nx in res:
            st = o.st; roles = st.ghost['roles']; no = P(self.no); ops = st.ghost['set']
            used = lambda s, j: Not(eq(self.usage(s, j), no))
            A = [self.v2o(self.arg(v)) for v in self.vargs]; G = [TRUE] * len(A); W = self.arg(1 if self.kind == 'cexp' else 0)
            for b, v in self.arg_ifs: A.append(self.v2o(self.arg(v))); G.append(self.bit(st, W, b))
            vec = self.E.read_obj(st, pre.mem['a2v'], self.arg(0) * 8, 8, 'I') if self.kind in ('load', 'store') else None
            if self.kind in ('result', 'cexp', 'load'): kept = used(pre, self.i)
            elif self.kind == 'compare': kept = self.co
            elif self.kind == 'print': kept = self.pf
            elif self.kind == 'store': kept = self.vused(pre, vec)
            elif self.kind == 'always': kept = TRUE
            else: kept = FALSE
            self.holds(st, Or(Not(kept), used(st, self.i)), 'a kept operator is marked as used')
            for n, (a, g) in enumerate(zip(A, G)): self.holds(st, Or(Not(kept), Not(g), used(st, a)), 'variable argument %d of a kept operator is used' % n)
            self.holds(st, Or(Not(used(pre, k)), used(st, k)), 'no use is forgotten')
            isarg = Or(*[And(kept, g, eq(k, a)) for a, g in zip(A, G)]) if A else FALSE
            twice = Or(*[And(g, h, eq(k, a), eq(k, b)) for n, (a, g) in enumerate(zip(A, G)) for b, h in list(zip(A, G))[n + 1:]]) if len(A) > 1 else FALSE
            addsub = Or(*[eq(self.opc(k), opcodes()[n]) for n in ADDSUB]) if self.op in ADDSUB else FALSE
            cs1 = eq(self.usage(st, k), P(self.csum)); cs0 = eq(self.usage(pre, k), P(self.csum))
            self.holds(st, Or(Not(cs1), And(cs0, Not(isarg)), And(isarg, self.cum, Not(used(pre, k)), addsub, Not(twice))), 'only an addition or subtraction used once below a sum is left to the cumulative sum')
            m = self.member(ops, k, e)
            other = FALSE
            if self.kind == 'cexp' and 'ci' in roles:
                ci = self.ci0 - 1
                need = lambda s: Or(*[And(G[n], eq(k, A[n])) for n in s])
                other = Or(And(eq(e, 2 * ci), Not(need((0, 1, 3)))), And(eq(e, 2 * ci + 1), Not(need((0, 1, 2)))))
            if st.ghost['nset'].cval() != 0: self.holds(st, Or(Not(m), And(Not(isarg), self.S0(k, e)), And(isarg, Or(Not(used(pre, k)), self.S0(k, e)), Or(self.S0(self.i, e), other))), 'an operator is skipped only if every user of it is skipped or does not need it')
            v = P(fresh('v', 'I')); self.assume(ge(v, 0))
            for s2 in ([st.fork(eq(v, vec)), st.fork(Not(eq(v, vec)))] if vec is not None else [st]): self.holds(s2, Or(Not(self.vused(pre, v)), self.vused(s2, v)), 'no use of a vector is forgotten')
            if self.kind == 'load': self.holds(st, Or(Not(kept), self.vused(st, vec)), 'the vector of a used load is used')
            if self.kind == 'cexp' and 'ci' in roles:
                self.eq(st, self.E.read_obj(st, st.mem['bc2o'], (self.ci0 - 1) * 4, 4, 'I'), self.i, 'the conditional expression has the index of its operator')
            self.eq(st, nx[roles['i']], self.i, 'the next iteration has the previous operator')
            if 'ci' in roles: self.eq(st, nx[roles['ci']], self.ci0 - (1 if self.kind == 'cexp' else 0), 'the next conditional expression index')
        return self.done()
    def bit(self, st, w, b):
        x = self.E.bitop(st, 'and', w, P(b), 32); return Not(eq(x, 0))
class Dep(U):
    """get_op_usage: the operators of the dependent variables are used"""
    def __init__(self, M): U.__init__(self, M, 'SinOp', opcodes()['SinOp']); self.label = 'get_op_usage dependents'
    def find(self, E, f, regex):
        a = Iter.find(self, E, f, regex); b = Iter.find(self, E, f, r'::op_info\('); return [h for h in a if h not in b]
    def prep(self, st, env, f, ph):
        st = st.fork(); pv = {}
        if len(ph) != 1: raise Unsupported('loop variables')
        for r, (ty, v) in ph.items(): self.d = pv[r] = P(var('d')); self.nonneg(self.d); self.true(P(v) == ZERO, 'the first dependent variable is the first', str(v))
        x = st.mem['bou']; st.mem['bou'] = Obj(x.name, 'pre_bou', (), x.size, x.meta); self.unsigned('pre_bou'); return [(st, pv)]
    def check(self):
        res = self.iterate('w_usage', [self.cs, self.co, self.pf, self.cum] + [Ptr(x, 0) for x in ('play', 'it', 'dep', 'c2o', 'cset', 'vu', 'ou')], r'::var2op\(', self.prep, inner=self.unroll(), exits='edge')
        k = P(fresh('k', 'I')); self.assume(ge(k, 0), lt(k, self.nop)); seen = set()
        for pre, pv, o, nx in res:
            st = o.st; nd = P(var('n_dep')); seen.add(nx is None)
            if nx is None: self.holds(st, ge(self.d, nd), 'no dependent variable is left out'); continue
            v = self.v2o(self.E.read_obj(st, st.mem['bdep'], self.d * 8, 8, 'I'))
            self.holds(st, Not(eq(self.usage(st, v), P(self.no))), 'the operator of a dependent variable is used')
            self.holds(st, And(Not(eq(self.usage(st, v), P(self.csum))), Or(eq(k, v), eq(self.usage(st, k), self.usage(pre, k)))), 'other operators do not change and it is not left to a cumulative sum')
            self.eq(st, list(nx.values())[0], self.d + 1, 'the next dependent variable')
        self.true(seen == {True, False}, 'the loop runs over the dependent variables'); return self.done()
NOMATCH = ('BeginOp', 'CExpOp', 'CSkipOp', 'CSumOp', 'EndOp', 'InvOp', 'LdpOp', 'LdvOp', 'ParOp', 'PriOp', 'StppOp', 'StpvOp', 'StvpOp', 'StvvOp', 'AFunOp', 'FunapOp', 'FunavOp', 'FunrpOp', 'FunrvOp')
class Prev(U):
    """get_op_previous: only operators without side effect or state are matched, and the match takes over the uses of the operator"""
    def __init__(self, M, name, code):
        table_ = table(); self.fake = name not in table_
        U.__init__(self, M, name if not self.fake else 'SinOp', code); self.op = name; self.label = 'get_op_previous %s' % name
        self.plain('bprev', 4, 'I'); self.unsigned('bprev'); self.obj('prev', {0: P(var('n_prev')), 8: P(var('c_prev')), 16: Ptr('bprev', 0)}); self.st.ghost['match'] = 0; self.st.ghost['nset'] = self.nonneg(P(var('nset')))
        nothing = lambda E, st, a, ins, d: None
        self.E.contracts = dict([(r'optimize::match_op<', self.match), (r'size_setvec<unsigned long>::(size_setvec|~size_setvec|resize)\(|pod_vector<.*>::(pod_vector\(\)|~pod_vector\(\))', nothing)] + list(self.E.contracts.items()))
    def match(self, E, st, a, ins, d):
        """the previous operator is zero or an earlier operator that is used and has no match (contract of match_op)"""
        m = self.nonneg(P(var('m'))); cur = P(a[3]); st.ghost['match'] += 1
        if cur != self.i: raise Unsupported('match of another operator')
        self.true(isinstance(a[2], Ptr) and a[2].obj == 'prev', 'the matches are stored in the result'); self.eq(st, self.E.read_obj(st, st.mem['bprev'], self.i * 4, 4, 'I'), ZERO, 'the operator has no match before the search')
        st.pc = st.pc + (Or(eq(m, 0), And(lt(m, self.i), eq(self.usage(st, m), P(self.yes)))),)
        E.write(st, Ptr('bprev', cur * 4), m, 4, 'I'); return fresh_bool('exceed')
    def prep(self, st, env, f, ph):
        st = st.fork(); pv = {}; ints = [r for r, (ty, v) in ph.items() if ty == ('int', 64)]
        if len(ints) != 1: raise Unsupported('loop variables')
        for r, (ty, v) in ph.items(): pv[r] = self.i if r == ints[0] else fresh_bool('lv') if ty[1] == 1 else self.nonneg(P(fresh('lv', 'I')))
        for o in ('bou', 'bprev'): x = st.mem[o]; st.mem[o] = Obj(x.name, 'pre_' + o, (), x.size, x.meta); self.unsigned('pre_' + o)
        st.ghost['set'] = (); st.ghost['proc'] = (self.i,); self.ivar = ints[0]; return [(st, pv)]
    def check(self):
        res = self.iterate('w_prev', [self.nonneg(P(var('limit')))] + [Ptr(x, 0) for x in ('play', 'it', 'cset', 'prev', 'ou')], r'::match_op<|::get_op\(', self.prep, inner=self.unroll())
        k = P(fresh('k', 'I')); e = P(fresh('e', 'I')); self.assume(ge(k, 0), lt(k, self.nop), ge(e, 0)); m = P(var('m'))
        for pre, pv, o, nx in res:
            st = o.st; used = eq(self.usage(pre, self.i), P(self.yes)); rd = lambda s, j: self.E.read_obj(st, s.mem['bprev'], P(j) * 4, 4, 'I')
            self.eq(st, nx[self.ivar], self.i + 1, 'the next operator'); self.holds(st, Or(eq(k, self.i), eq(rd(st, k), rd(pre, k))), 'matches of other operators do not change')
            if st.ghost['match'] == 0:
                self.eq(st, rd(st, self.i), ZERO, 'without search there is no match'); self.holds(st, And(eq(self.usage(st, k), self.usage(pre, k))), 'no usage changes'); self.true(st.ghost['set'] == (), 'no set changes'); continue
            self.true(st.ghost['match'] == 1 and self.op not in NOMATCH, 'only operators without state and side effect are matched')
            self.holds(st, used, 'only used operators are matched')
            self.eq(st, rd(st, self.i), m, 'the match is recorded'); hit = Not(eq(m, 0))
            self.holds(st, Or(Not(hit), eq(self.usage(st, m), P(self.yes))), 'the match is used')
            self.holds(st, Or(And(hit, eq(k, m)), eq(self.usage(st, k), self.usage(pre, k))), 'the usage of other operators does not change')
            mem = self.member(st.ghost['set'], k, e)
            self.holds(st, Or(eq(st.ghost['nset'], 0), Not(mem), And(self.S0(k, e), Or(Not(And(hit, eq(k, m))), self.S0(self.i, e)))), 'the match is skipped only if the operator and its match are skipped')
        return self.done()
def jobs(): return [('usage', n) for n in table()] + [('dep', '')] + [('prev', n) for n in opcodes() if n != 'NumberOp']
def var_bool(n): return i2b(P(var(n)))
def job(M, kind, name):
    if kind == 'dep': return Dep(M).check()
    return (U if kind == 'usage' else Prev)(M, name, opcodes()[name]).check()
if __name__ == '__main__':
    M = load(); sel_ = sys.argv[1:]
    for kd, n in jobs():
        if sel_ and not any(re.search(p, kd + ' ' + n) for p in sel_): continue
        t0 = time.time()
        try: l = job(M, kd, n); print('ok  ', kd, n, len(l), '%.1f s' % (time.time() - t0))
        except (ObligationFailed, Unsupported) as x: print(type(x).__name__, kd, n, str(x)[:600], '%.1f s' % (time.time() - t0))
        sys.stdout.flush()
