"""C09: contracts of the matching of equal operators (match_op) and of one iteration of the loop that writes the optimized recording.

match_op, one candidate: the candidate is chosen as previous operator only if it has the same operator code and, with variables
replaced by their previous match, the same arguments (in either order for the addition and the product of two variables); the
result variable of a matched operator is mapped to that of its match; nothing else changes.
optimize_run, one operator: an operator that is used and has no previous match is written as the same operator code with each
variable argument replaced by its new variable, each parameter by its new parameter and other arguments unchanged, and its new
variable is the one that the recorder returned; a matched operator writes nothing and gets the new variable of its match; an
unused operator writes nothing; a cumulative sum is recorded exactly for an addition, subtraction or cumulative sum that has an
argument left to it."""
import re, sys, os, time
from terms import *
from symex import *
from fn import *
from iter import Iter
import build, record, optusage
from optusage import opcodes, ADDSUB, var_bool
def driver():
    return '''#include <cppad/cppad.hpp>
using namespace CppAD; using namespace CppAD::local; using namespace CppAD::local::optimize;
typedef CppAD::vector<size_t> V_; typedef options_t O_; typedef struct_cexp_info CI_;
extern "C" {
long K_no = no_usage, K_yes = yes_usage, K_csum = csum_usage, K_usize = sizeof(usage_t), K_opw = sizeof(op_code_var), K_v_len = offsetof(V_, length_), K_v_data = offsetof(V_, data_);
long K_pv_size = offsetof(pod_vector<addr_t>, size_), K_pv_cap = offsetof(pod_vector<addr_t>, capacity_), K_pv_data = offsetof(pod_vector<addr_t>, data_), K_addrmax = std::numeric_limits<addr_t>::max();
long K_start = start_atom, K_o_co = offsetof(O_, compare_op), K_o_cs = offsetof(O_, conditional_skip), K_o_cum = offsetof(O_, cumulative_sum_op), K_o_pf = offsetof(O_, print_for_op), K_o_lim = offsetof(O_, collision_limit);
size_t k_numarg(op_code_var op) { return NumArg(op); } size_t k_numres(op_code_var op) { return NumRes(op); }
bool w_match(size_t lim, const play::const_random_iterator<addr_t>& it, pod_vector<addr_t>& prev, size_t cur, sparse::list_setvec& h, pod_vector<bool>& wb, pod_vector<addr_t>& wa)
{ return match_op<addr_t>(lim, it, prev, cur, h, wb, wa); }
bool w_run(const std::string& o, size_t n, pod_vector<size_t>& dep, player<double>* play, recorder<double>* rec)
{ return optimize_run<addr_t,double>(o, n, dep, play, rec); }
}
'''
def load(): return build.ir(driver(), 'optrun', extra=['-fno-access-control'])
MATCH = None
def kinds():
    """op code -> kind of each argument: v variable, p parameter, i unchanged, c variable or parameter (mask), t text, a index of a vector, l load number"""
    t = {}
    for n, (k, _) in record.op_semantics().items(): t[n] = k
    for r in ('Eq', 'Le', 'Lt', 'Ne'):
        for k in ('pp', 'pv', 'vp', 'vv'): t[r + k + 'Op'] = k
    t['DisOp'] = 'iv'
    return {n: k for n, k in t.items() if n in opcodes()}
def emitted():
    t = dict(kinds())
    t.update({'InvOp': '', 'BeginOp': 'i', 'EndOp': '', 'ParOp': 'p', 'PriOp': 'icTcT', 'CExpOp': 'iicccc', 'LdpOp': 'apl', 'LdvOp': 'avl', 'StppOp': 'app', 'StpvOp': 'apv', 'StvpOp': 'avp', 'StvvOp': 'avv'})
    return t
class Base(Iter):
    def common(self, name, code):
        E = self.E; self.op = name; self.code = code; self.nop = P(var('num_op')); self.nvar = P(var('num_var')); self.assume(ge(self.nop, 1), ge(self.nvar, 1))
        self.nres = int(E.call(self.st.fork(), '@k_numres', [P(code)])[0][1].cval()); self.narg = int(E.call(self.st.fork(), '@k_numarg', [P(code)])[0][1].cval())
        self.plain('args', 4, 'I', const=True); self.unsigned('args'); self.i = None
    def nonneg(self, x):
        c = ge(x, 0)
        if c not in self.pr.axioms: self.pr.axioms.append(c)
        return x
    def arg(self, k, o='args'): return self.E.read_obj(self.st, self.st.mem[o], P(4 * k), 4, 'I')
    def v2o(self, v):
        x = app('v2o', [P(v)], 'I')
        for c in (ge(x, 0), lt(x, self.nop)):
            if c not in self.pr.axioms: self.pr.axioms.append(c)
        return x
    def podvec(self, st, name, data, n):
        K = self.K; self.plain(data, *self.el); self.obj(name, {K['pv_size']: n, K['pv_cap']: n, K['pv_data']: Ptr(data, 0)})
class Match(Base):
    def __init__(self, M, name, code):
        Iter.__init__(self, M, 'match_op %s' % name); self.common(name, code); E = self.E; K = self.K
        self.cur = P(var('current')); self.cand = P(var('candidate')); self.assume(ge(self.cur, 0), lt(self.cur, self.nop), ge(self.cand, 0), le(self.cand, self.nop))
        for b, es, so in (('bprev', 4, 'I'), ('bwb', 1, 'I'), ('bwa', 4, 'I')): self.plain(b, es, so); self.unsigned(b)
        for o, b, n in (('prev', 'bprev', self.nop), ('wb', 'bwb', P(var('n_wb'))), ('wa', 'bwa', self.nvar)): self.obj(o, {K['pv_size']: n, K['pv_cap']: n, K['pv_data']: Ptr(b, 0)})
        self.obj('it', const=True); self.obj('h'); self.plain('cargs', 4, 'I', const=True); self.unsigned('cargs'); self.st.ghost['add'] = (); self.st.ghost['clear'] = ()
        self.opc = self.nonneg(P(var('opc'))); self.ci = self.nonneg(P(var('i_var_c'))); self.iv = self.nonneg(P(var('i_var')))
        E.contracts.update({
            r'const_random_iterator<unsigned int>::num_op\(\)': lambda E, st, a, ins, d: self.nop, r'const_random_iterator<unsigned int>::num_var\(\)': lambda E, st, a, ins, d: self.nvar,
            r'const_random_iterator<unsigned int>::op_info\(': self.op_info, r'optimize_hash_code': lambda E, st, a, ins, d: self.nonneg(P(var('hash'))),
            r'size_setvec_const_iterator<unsigned long>::size_setvec_const_iterator\(': lambda E, st, a, ins, d: None,
            r'size_setvec_const_iterator<unsigned long>::operator\*\(\)': self.deref, r'size_setvec_const_iterator<unsigned long>::operator\+\+\(\)': lambda E, st, a, ins, d: a[0],
            r'size_setvec<unsigned long>::add_element\(': lambda E, st, a, ins, d: st.ghost.__setitem__('add', st.ghost['add'] + ((P(a[1]), P(a[2])),)),
            r'size_setvec<unsigned long>::clear\(': lambda E, st, a, ins, d: st.ghost.__setitem__('clear', st.ghost['clear'] + (P(a[1]),)),
            r'pod_vector<.*>::resize\(': lambda E, st, a, ins, d: None})
    def deref(self, E, st, a, ins, d):
        """the element at the iterator is an arbitrary operator or the end of the set"""
        if not any(o.startswith('cell') for o in st.mem): pass
        n = 'cell'
        if n not in st.mem: st.mem[n] = Obj(n, n, (Upd('pt', ZERO, self.cand, 8, 'I'),), None, {'const': True})
        return Ptr(n, 0) if ins.ty[0] == 'ptr' else self.cand
    def op_info(self, E, st, a, ins, d):
        it, i, op, arg, iv = a[:5]
        if P(i) == self.cur: c, g, v = P(self.code), 'args', self.iv
        elif P(i) == self.cand: c, g, v = self.opc, 'cargs', self.ci
        else: raise Unsupported('operator at %s' % i)
        E.write(st, op, c, self.K['opw'], 'I'); E.write(st, arg, Ptr(g, 0), 8, 'P'); E.write(st, iv, v, 8, 'I'); return None
    def prep(self, st, env, f, ph):
        st = st.fork(); pv = {}
        for r, (ty, v) in ph.items():
            if ty[0] != 'int' or ty[1] == 1: raise Unsupported('loop variable')
            pv[r] = self.nonneg(P(fresh('lv', 'I')))
        st.ghost['n'] = {o: len(st.mem[o].upds) for o in ('bprev', 'bwa')}
        return [(st, pv)]
    def check(self):
        E = self.E; k = P(fresh('k', 'I')); self.assume(ge(k, 0), lt(k, self.nvar))
        res = self.iterate('w_match', [self.nonneg(P(var('limit'))), Ptr('it', 0), Ptr('prev', 0), self.cur, Ptr('h', 0), Ptr('wb', 0), Ptr('wa', 0)], r'const_iterator<unsigned long>::operator\+\+', self.prep, exits=True, inner=self.unroll())
        kind = kinds()[self.op]; self.matched = 0
        for pre, pv, o, nx in res:
            st = o.st; m0 = lambda x: E.read_obj(st, pre.mem['bwa'], P(x) * 4, 4, 'I'); m1 = lambda x: E.read_obj(st, st.mem['bwa'], P(x) * 4, 4, 'I')
            prev = lambda s, j: E.read_obj(st, s.mem['bprev'], P(j) * 4, 4, 'I')
            n = P(fresh('j', 'I')); self.assume(ge(n, 0), lt(n, self.nop))
            same = self.pr.prove(st.pc, eq(prev(st, n), prev(pre, n)))
            self.holds(st, Or(eq(n, self.cur), eq(prev(st, n), prev(pre, n))), 'only the current operator gets a match')
            if same:
                self.holds(st, eq(m1(k), m0(k)), 'without a match the map of the variables does not change')
                if nx is None: self.true(st.ghost['add'] == ((P(var('hash')), self.cur),), 'an operator without match is added to the candidates', str(st.ghost['add']))
                continue
            self.matched += 1
            self.true(nx is None, 'the search ends at a match')
            self.eq(st, prev(st, self.cur), self.cand, 'the match is the candidate')
            self.holds(st, eq(self.opc, P(self.code)), 'the match has the same operator code')
            def agree(perm): return And(*[eq(m0(self.arg(j)), m0(self.arg(perm[j], 'cargs'))) if c == 'v' else eq(self.arg(j), self.arg(perm[j], 'cargs')) for j, c in enumerate(kind)])
            ids = list(range(len(kind))); c = agree(ids)
            if self.op in ('AddvvOp', 'MulvvOp'): c = Or(c, agree([1, 0]))
            self.holds(st, c, 'the arguments of the match are equal up to previous matches')
            if self.nres: self.holds(st, And(eq(m1(self.iv), self.ci), Or(eq(k, self.iv), eq(m1(k), m0(k)))), 'the result is mapped to the result of the match')
            else: self.holds(st, eq(m1(k), m0(k)), 'no variable is mapped')
        return self.done()
class Run(Base):
    def __init__(self, M, name, code, cs):
        self.opt = {'co': True, 'cs': cs, 'cum': True, 'pf': True}
        Iter.__init__(self, M, 'optimize_run %s' % name); self.common(name, code); E = self.E; K = self.K; self.kind = emitted()[name]
        def count(name):
            def h(E, st, a, ins, d): return self.nonneg(P(var(name)))
            return h
        nothing = lambda E, st, a, ins, d: None
        for o in ('play', 'rec', 'opt'): self.obj(o)
        self.obj('dep', {K['pv_size']: self.nonneg(P(var('n_dep'))), K['pv_cap']: self.nonneg(P(var('c_dep'))), K['pv_data']: Ptr('bdep', 0)}); self.plain('bdep', 8, 'I'); self.unsigned('bdep')
        for b, es, so in (('busage', K['usize'], 'I'), ('bprev', 4, 'I'), ('bpar', 1, 'I'), ('bvu', 1, 'I'), ('bc2o', 4, 'I'), ('bdyn', 4, 'I'), ('bpd', 1, 'I'), ('bdpo', 1, 'I'), ('bdpa', 4, 'I'), ('bd2p', 4, 'I')): self.plain(b, es, so); self.unsigned(b)
        def cvec(name, data):
            self.obj(name, {K['pv_size']: self.nonneg(P(var('n_' + name))), K['pv_cap']: self.nonneg(P(var('n_' + name))), K['pv_data']: Ptr(data, 0)}, const=True); return lambda E, st, a, ins, d: Ptr(name, 0)
        def setvec(st, p, data, n):
            for off, v, so in ((K['pv_size'], n, 'I'), (K['pv_cap'], n, 'I'), (K['pv_data'], Ptr(data, 0), 'P')): E.write(st, Ptr(p.obj, p.off + off), v, 8, so)
        def get_op_usage(E, st, a, ins, d):
            c2o, cset, vu, ou = a[-4:]
            setvec(st, ou, 'busage', self.nop); setvec(st, vu, 'bvu', self.nonneg(P(var('num_vecad')))); setvec(st, c2o, 'bc2o', self.nonneg(P(var('num_cexp')))); return None
        def get_op_previous(E, st, a, ins, d): setvec(st, a[-2], 'bprev', self.nop); return var_bool('exceed')
        def get_par_usage(E, st, a, ins, d): setvec(st, a[-1], 'bpar', self.nonneg(P(var('num_par')))); return None
        def get_dyn_previous(E, st, a, ins, d): setvec(st, a[-1], 'bdyn', self.nonneg(P(var('num_dyn')))); return None
        def options(E, st, a, ins, d):
            pk = sum(int(v) << (8 * K['o_' + k]) for k, v in self.opt.items()); lim = self.nonneg(P(var('limit')))
            if len(a) < 2:
                if K['o_lim'] != 8: raise Unsupported('layout of the options')
                return [(st, [P(pk), lim])]
            p = a[0]
            for k, v in self.opt.items(): E.write(st, Ptr(p.obj, p.off + K['o_' + k]), P(int(v)), 1, 'I')
            E.write(st, Ptr(p.obj, p.off + K['o_lim']), lim, 8, 'I'); return None
        self.nb = 0
        def pv_new(E, st, a, ins, d):
            n = P(a[1]); self.nb += 1; nm = 'vec%d' % self.nb
            es = 4 if 'unsigned int' in d else 24 if 'cskip' in d else 8
            st.mem[nm] = Obj(nm, nm, (), None, {'esize': es, 'sort': 'I'}); self.unsigned(nm); setvec(st, a[0], nm, n); st.ghost['vecs'] = st.ghost['vecs'] + ((nm, n),); return None
        def v_new(E, st, a, ins, d):
            n = P(a[1]); self.nb += 1; nm = 'vec%d' % self.nb; st.mem[nm] = Obj(nm, nm, (), None, {'esize': 8, 'sort': 'I'}); self.unsigned(nm)
            E.write(st, Ptr(a[0].obj, a[0].off + K['v_len']), n, 8, 'I'); E.write(st, Ptr(a[0].obj, a[0].off + K['v_data']), Ptr(nm, 0), 8, 'P'); return None
        def v_empty(E, st, a, ins, d):
            self.nb += 1; nm = 'vec%d' % self.nb; st.mem[nm] = Obj(nm, nm, (), None, {'esize': 8, 'sort': 'I'}); self.unsigned(nm)
            E.write(st, Ptr(a[0].obj, a[0].off + K['v_len']), ZERO, 8, 'I'); E.write(st, Ptr(a[0].obj, a[0].off + K['v_data']), Ptr(nm, 0), 8, 'P'); return None
        self.st.ghost['vecs'] = (); self.st.ghost['em'] = (); self.st.ghost['i'] = None
        E.contracts.update({
            r'player<double>::setup_random\(': nothing, r'player<double>::get_random\(': nothing, r'extract_option\(': options,
            r'player<double>::num_var_op\(\)': lambda E, st, a, ins, d: self.nop, r'player<double>::num_var\(\)': lambda E, st, a, ins, d: self.nvar,
            r'player<double>::num_par_all\(\)': count('num_par'), r'player<double>::num_var_vec_ind\(\)': count('num_ind'), r'player<double>::num_var_vecad\(\)': count('num_vecad'),
            r'player<double>::n_dyn_independent\(\)': count('n_ind_dyn'), r'player<double>::num_dynamic_par\(\)': count('num_dyn'),
            r'player<double>::dyn2par_index\(\)': cvec('d2p', 'bd2p'), r'player<double>::par_is_dyn\(\)': cvec('pd', 'bpd'), r'player<double>::dyn_par_op\(\)': cvec('dpo', 'bdpo'), r'player<double>::dyn_par_arg\(\)': cvec('dpa', 'bdpa'),
            r'player<double>::par_one\(': lambda E, st, a, ins, d: app('par', [P(a[1])], 'R'), r'player<double>::GetVecInd\(': lambda E, st, a, ins, d: self.nonneg(app('vecind', [P(a[1])], 'I')),
            r'player<double>::GetTxt\(': lambda E, st, a, ins, d: Ptr('txt', P(a[1])),
            r'optimize::get_op_usage<': get_op_usage, r'optimize::get_op_previous<': get_op_previous, r'optimize::get_cexp_info<': nothing, r'optimize::get_par_usage<': get_par_usage, r'optimize::get_dyn_previous<': get_dyn_previous,
            r'CppAD::index_sort<': nothing,
            r'size_setvec<unsigned long>::(size_setvec|~size_setvec|resize)\(': nothing, r'size_setvec<unsigned long>::number_elements\(': lambda E, st, a, ins, d: self.nonneg(app('nel', [P(var(re.sub(r'\W', '_', a[0].obj))), P(a[1])], 'I')),
            r'pod_vector<.*>::pod_vector\(unsigned long\)': pv_new, r'pod_vector<.*>::(pod_vector\(\)|~pod_vector\(\)|resize\(|push_back\(|clear\()': nothing,
            r'CppAD::vector<.*>::vector\(unsigned long\)': v_new, r'CppAD::vector<.*>::vector\(\)': v_empty, r'CppAD::vector<.*>::(~vector\(\)|resize\()': nothing,
            r'struct_csum_stacks::~?struct_csum_stacks\(\)$': nothing,
            r'recorder<double>::(set_n_dyn_independent|set_abort_op_index|set_record_compare|put_dyn_arg_vec)\(': nothing,
            r'recorder<double>::put_dyn\w*\(|recorder<double>::put_var_vecad_ind\(': lambda E, st, a, ins, d: self.nonneg(P(fresh('newpar', 'I'))),
            r'recorder<double>::put_con_par\(': lambda E, st, a, ins, d: self.nonneg(P(fresh('con', 'I'))),
            r'recorder<double>::num_var_op\(\)': lambda E, st, a, ins, d: self.nonneg(app('recop', [P(sum(1 for x in st.ghost['em'] if x[0] in ('op', 'csum')))], 'I')),
            r'recorder<double>::num_var_load\(\)': lambda E, st, a, ins, d: self.nonneg(P(var('rec_loads'))),
            r'recorder<double>::PutTxt\(': lambda E, st, a, ins, d: self.nonneg(app('newtxt', [a[1].off], 'I')) if isinstance(a[1], Ptr) and a[1].obj == 'txt' else None,
            r'recorder<double>::PutArg\(': lambda E, st, a, ins, d: st.ghost.__setitem__('em', st.ghost['em'] + (('arg',) + tuple(P(x) for x in a[1:]),)),
            r'recorder<double>::Put(Load)?Op\(': self.put_op, r'recorder<double>::ReserveArg\(': self.reserve,
            r'const_random_iterator<unsigned int>::op_info\(': self.op_info, r'const_random_iterator<unsigned int>::var2op\(': lambda E, st, a, ins, d: self.v2o(a[1]),
            r'optimize::record_csum<': self.csum_call,
        })
    def put_op(self, E, st, a, ins, d):
        r = self.nonneg(P(fresh('newvar', 'I'))); st.ghost['em'] = st.ghost['em'] + (('op', P(a[1]), r, 'Load' in d),); return r
    def reserve(self, E, st, a, ins, d):
        st.ghost['em'] = st.ghost['em'] + (('reserve',),); return self.nonneg(P(fresh('iarg', 'I')))
    def csum_call(self, E, st, a, ins, d):
        r = [self.nonneg(P(fresh('cs_op', 'I'))), self.nonneg(P(fresh('cs_var', 'I')))]; st.ghost['em'] = st.ghost['em'] + (('csum', tuple(r)),)
        if isinstance(a[0], Ptr) and len(a) > 8:
            E.write(st, a[0], r[0], 8, 'I'); E.write(st, Ptr(a[0].obj, a[0].off + 8), r[1], 8, 'I'); return None
        return [(st, r)]
    def op_info(self, E, st, a, ins, d):
        it, i, op, arg, iv = a[:5]
        if st.ghost['i'] is None: st.ghost['i'] = P(i)
        if P(i) != st.ghost['i']: raise Unsupported('operator at %s' % i)
        E.write(st, op, P(self.code), self.K['opw'], 'I'); E.write(st, arg, Ptr('args', 0), 8, 'P'); E.write(st, iv, self.nonneg(P(var('i_tmp'))), 8, 'I'); return None
    def prep(self, st, env, f, ph):
        st = st.fork(); pv = {}; st.ghost['i'] = None
        for r, (ty, v) in ph.items():
            if ty[0] != 'int' or ty[1] == 1: raise Unsupported('loop variable')
            pv[r] = P(self.K['start']) if ty[1] == 32 else self.nonneg(P(fresh('lv', 'I')))
        for n, ob in list(st.mem.items()):
            if n.startswith('vec') or n in ('busage', 'bprev', 'bvu', 'bpar', 'bdep'): st.mem[n] = Obj(ob.name, 'pre_' + n, (), ob.size, ob.meta); self.unsigned('pre_' + n)
        st.ghost['em'] = ()
        return [(st, pv)]
    def vec(self, st, name):
        v = [nm for nm, n in st.ghost['vecs'] if n == P(var(name))]
        if len(v) != 1: raise Unsupported('map of size %s' % name)
        return v[0]
    def check(self):
        E = self.E; K = self.K
        self.skip = True
        res = self.iterate('w_run', [Ptr('opt', 0), self.nonneg(P(var('n'))), Ptr('dep', 0), Ptr('play', 0), Ptr('rec', 0)], r'::Put(Load)?Op\(', self.prep, inner=self.unroll(8))
        for pre, pv, o, nx in res:
            st = o.st; nv, np, ni = self.vec(st, 'num_op'), self.vec(st, 'num_par'), self.vec(st, 'num_ind'); i = st.ghost['i']
            if not any(v == i for v in pv.values()): raise Unsupported('operator index')
            # operators of a valid sequence use earlier variables, and a match is an earlier operator
            rdp = E.read_obj(st, pre.mem['bprev'], i * 4, 4, 'I'); ind = [lt(i, self.nop), Or(lt(rdp, i), eq(rdp, 0))] + [lt(self.v2o(self.arg(j)), i) for j, c in enumerate(self.kind) if c in 'vc']
            st = st.fork(*ind)
            if not self.pr.feasible(st.pc): continue
            rd = lambda s, b, k: E.read_obj(st, s.mem[b], P(k) * 4, 4, 'I')
            use = lambda k: E.read_obj(st, pre.mem['busage'], P(k) * K['usize'], K['usize'], 'I')
            prev = rd(pre, 'bprev', i); em = st.ghost['em']
            if self.op in ('InvOp', 'BeginOp', 'EndOp', 'ParOp', 'CExpOp', 'PriOp') or self.op[:2] in ('Ld', 'St') and self.kind[:1] == 'a': st = st.fork(eq(prev, 0))
            if not self.pr.feasible(st.pc): continue
            if em[:1] == (('reserve',),):
                self.true(len(em) > 1 and em[1][0] == 'op' and em[1][1] == P(opcodes()['CSkipOp']), 'a conditional skip is one operator with its arguments'); em = em[2:]
                self.true(self.opt['cs'], 'conditional skips only with the option')
            yes = eq(use(i), P(K['yes'])); code = opcodes()
            emits = bool(em)
            cs = [x for x in em if x[0] == 'csum']
            below = FALSE
            if self.op in ADDSUB: below = Or(*[eq(use(self.v2o(self.arg(j))), P(K['csum'])) for j, c in enumerate(self.kind) if c == 'v'])
            newvar = rd(st, nv, i)
            if cs:
                self.true(len(em) == 1, 'a cumulative sum writes nothing else', str(em)); self.holds(st, And(yes, below), 'a cumulative sum replaces only a used sum of operators left to it')
                self.eq(st, newvar, cs[0][1][1], 'the new variable is the cumulative sum'); continue
            if not emits:
                self.holds(st, Or(Not(yes), And(Not(eq(prev, 0)), Not(below))), 'an operator is left out only if it is not used or has a match')
                self.holds(st, Or(Not(yes), eq(newvar, E.read_obj(st, pre.mem[nv] if False else st.mem[nv], prev * 4, 4, 'I'))), 'a matched operator gets the variable of its match')
            else:
                self.holds(st, And(yes, eq(prev, 0), Not(below)), 'only a used operator without match is written')
                ops = [x for x in em if x[0] == 'op']; args = [y for x in em if x[0] == 'arg' for y in x[1:]]
                self.true(len(ops) == 1 and ops[0][1] == P(self.code), 'the same operator is written', str(em))
                self.true(ops[0][3] == (self.kind[-1:] == 'l'), 'load operators are counted')
                want = []; kk = list(self.kind)
                bits = {'CExpOp': (1, {2: 1, 3: 2, 4: 4, 5: 8}), 'PriOp': (0, {1: 1, 3: 2})}.get(self.op)
                self.true(len(args) == len(kk), 'the number of arguments', str(args))
                for j, c in enumerate(kk):
                    a = self.arg(j); nw = rd(pre, nv, self.v2o(a)) if c in 'vc' else None; pw = rd(pre, np, a) if c in 'pc' else None; what = 'argument %d' % j
                    if c == 'v': w = nw
                    elif c == 'p': w = pw
                    elif c == 'i': w = a
                    elif c == 'a': w = rd(pre, ni, a)
                    elif c == 'l': w = P(var('rec_loads'))
                    elif c == 'T': w = app('newtxt', [a], 'I')
                    if c == 'c':
                        isv = Not(eq(E.bitop(st, 'and', self.arg(bits[0]), P(bits[1][j]), 32), 0))
                        self.holds(st, Or(And(isv, eq(args[j], nw)), And(Not(isv), eq(args[j], pw))), what + ' is the new index of the old argument')
                    elif self.kind == 'vpp' and j > 0: pass
                    else: self.same(st, args[j], w, nv, i, what + ' is the new index of the old argument')
                if self.nres: self.eq(st, newvar, ops[0][2], 'the new variable is the result of the written operator')
            k = P(fresh('k', 'I')); self.holds(st.fork(ge(k, 0), lt(k, self.nop)), Or(eq(k, i), eq(rd(st, nv, k), rd(pre, nv, k))), 'the variables of other operators do not change')
        return self.done()
    def same(self, st, got, want, nv, i, what): self.holds(st, eq(got, want), what)
def jobs():
    return [('match', n) for n in kinds()] + [('run', n) for n in emitted()]
def job(M, kind, name):
    if kind == 'match': return Match(M, name, opcodes()[name]).check()
    out = []
    for cs in (False, True): out += [x for x in Run(M, name, opcodes()[name], cs).check() if x not in out]
    return out
def add(ctx):
    for mod, tag in ((sys.modules[__name__], 'optrun'), (optusage, 'optusage')):
        M = ctx.module_of(mod.load, tag)
        if M is not None:
            for kd, n in mod.jobs(): ctx.task('optimize %s %s' % ({'match': 'match_op', 'run': 'optimize_run', 'usage': 'get_op_usage', 'dep': 'get_op_usage dependents', 'prev': 'get_op_previous'}[kd], n), mod.job, M, kd, n)
if __name__ == '__main__':
    M = load(); sel_ = sys.argv[1:]
    for kd, n in jobs():
        if sel_ and not any(re.search(p, kd + ' ' + n) for p in sel_): continue
        t0 = time.time()
        try: l = job(M, kd, n); print('ok  ', kd, n, len(l), '%.1f s' % (time.time() - t0))
        except (ObligationFailed, Unsupported) as x: print(type(x).__name__, kd, n, str(x)[:700], '%.1f s' % (time.time() - t0))
        sys.stdout.flush()
