"""C18: contracts of the calls of user defined functions.

Dispatch: call_atomic_* call the function that is registered for the atomic function (through its table of virtual functions), once, with
the arguments unchanged; the old interface gets the identifier of the call first; the arguments that are identically zero constants are
marked for the newest interface.
Sparsity callbacks of atomic_three and atomic_four: the arguments and results that are variables and matter are selected, the patterns that the user
function returns are propagated between the sets of the arguments and results (Jacobian), and the Hessian pattern adds the pairs of arguments.
The user function is used by contract: it may return any pattern, or fail (then the deprecated version is tried)."""
import re
from terms import *
from symex import *
from fn import *
import build, sparsity
from optusage import var_bool
def driver():
    ab = sparsity.driver(); ab = ab[ab.index('struct AbsSet'):ab.index('extern "C"')]
    s = '#include <cppad/cppad.hpp>\nusing namespace CppAD; using namespace CppAD::local;\n' + ab
    s += '''typedef CppAD::vector<double> V_; typedef CppAD::vector<ad_type_enum> T_; typedef CppAD::vector<bool> B_; typedef CppAD::vector<size_t> I_; typedef sparse_rc<I_> R_;
template class CppAD::atomic_base<double>; template class CppAD::atomic_three<double>; template class CppAD::atomic_four<double>;
extern "C" {
long K_v_cap = offsetof(V_, capacity_), K_v_len = offsetof(V_, length_), K_v_data = offsetof(V_, data_), K_const = constant_enum;
long K_rc_row = offsetof(R_, row_), K_rc_col = offsetof(R_, col_), K_rc_nnz = offsetof(R_, nnz_), K_rc_nr = offsetof(R_, nr_), K_rc_nc = offsetof(R_, nc_);
'''
    for n, (ps, ex) in CALLS.items():
        s += 'void w_%s(%s) { sweep::call_atomic_%s<%s>(%s); }\n' % (n, ', '.join('%s %s' % (TY[k], 'a%d' % i) for i, k in enumerate(ps)), n, ex, ', '.join('a%d' % i for i in range(len(ps))))
    for c in ('three', 'four'):
        for f, (pre, post) in SPARSE.items():
            ps = pre[c] + post
            s += 'bool w_%s_%s(atomic_%s<double>* p, %s) { return p->%s<AbsSet>(%s); }\n' % (c, f, c, ', '.join('%s a%d' % (TY[k], i) for i, k in enumerate(ps)), f, ', '.join('a%d' % i for i in range(len(ps))))
    return s + '}\n'
TY = {'px': 'const V_&', 'tt': 'const T_&', 'need': 'size_t', 'vy': 'const B_&', 'vx': 'const B_&', 'lo': 'size_t', 'up': 'size_t', 'ai': 'size_t', 'ci': 'size_t', 'tx': 'const V_&', 'ty': 'V_&', 'cty': 'const V_&', 'ptx': 'V_&', 'pty': 'const V_&',
      'dep': 'bool', 'ix': 'const I_&', 'iy': 'const I_&', 'S': 'AbsSet&', 'J': 'const AbsSet&', 'np1': 'size_t', 'nv': 'size_t', 'rj': 'bool*', 'dx': 'B_&', 'dy': 'const B_&', 'zx': 'const B_&'}
CALLS = {
    'forward': ('px tt need vy lo up ai ci tx ty'.split(), 'double,double'), 'reverse': ('px tt vx up ai ci tx cty ptx pty'.split(), 'double,double'),
    'for_jac_sparsity': ('ai ci dep px tt ix iy S'.split(), 'double,double,AbsSet'), 'rev_jac_sparsity': ('ai ci dep px tt ix iy S'.split(), 'double,double,AbsSet'),
    'for_hes_sparsity': ('ai ci px tt ix iy np1 nv J S'.split(), 'double,double,AbsSet'), 'rev_hes_sparsity': ('ai ci px tt ix iy J rj S'.split(), 'double,double,AbsSet'),
    'rev_depend': ('ai ci px tt dx dy'.split(), 'double,double')}
# method and arguments for each interface: Z is the vector of identically zero arguments, E an empty vector
METHOD = {
    'forward': {2: ('forward', 'lo up E E tx ty'), 3: ('forward', 'px tt need lo up tx ty'), 4: ('forward', 'ci vy lo up tx ty')},
    'reverse': {2: ('reverse', 'up tx cty ptx pty'), 3: ('reverse', 'px tt up tx cty ptx pty'), 4: ('reverse', 'ci vx up tx cty ptx pty')},
    'for_jac_sparsity': {2: ('for_sparse_jac', 'px ix iy S'), 3: ('for_jac_sparsity', 'dep px tt ix iy S'), 4: ('for_jac_sparsity', 'ci dep Z ix iy S')},
    'rev_jac_sparsity': {2: ('rev_sparse_jac', 'px ix iy S'), 3: ('rev_jac_sparsity', 'dep px tt ix iy S'), 4: ('rev_jac_sparsity', 'ci dep Z ix iy S')},
    'for_hes_sparsity': {2: ('for_sparse_hes', 'px ix iy np1 nv J S'), 3: ('for_hes_sparsity', 'px tt ix iy np1 nv J S'), 4: ('for_hes_sparsity', 'ci Z ix iy np1 nv J S')},
    'rev_hes_sparsity': {2: ('rev_sparse_hes', 'px ix iy J rj S'), 3: ('rev_hes_sparsity', 'px tt ix iy J rj S'), 4: ('rev_hes_sparsity', 'ci Z ix iy J rj S')},
    'rev_depend': {2: ('rev_depend', 'px tt dx dy'), 3: ('rev_depend', 'px tt dx dy'), 4: ('rev_depend', 'ci Z dx dy')}}
SPARSE = {'for_jac_sparsity': ({'three': 'dep px tt'.split(), 'four': 'ci dep zx'.split()}, 'ix iy S'.split()), 'rev_jac_sparsity': ({'three': 'dep px tt'.split(), 'four': 'ci dep zx'.split()}, 'ix iy S'.split()),
          'for_hes_sparsity': ({'three': 'px tt'.split(), 'four': 'ci zx'.split()}, 'ix iy np1 nv J S'.split()), 'rev_hes_sparsity': ({'three': 'px tt'.split(), 'four': 'ci zx'.split()}, 'ix iy J rj S'.split())}
def load(): return build.ir(driver(), 'callback', extra=['-fno-access-control'])
EL = {'px': (8, 'R'), 'tt': (4, 'I'), 'vy': (1, 'I'), 'vx': (1, 'I'), 'tx': (8, 'R'), 'ty': (8, 'R'), 'cty': (8, 'R'), 'ptx': (8, 'R'), 'pty': (8, 'R'), 'ix': (8, 'I'), 'iy': (8, 'I'), 'dx': (1, 'I'), 'dy': (1, 'I'), 'zx': (1, 'I')}
CLS = {2: 'atomic_base', 3: 'atomic_three', 4: 'atomic_four'}
class Base(Fn):
    def __init__(self, M, label):
        Fn.__init__(self, M, label); E = self.E; E.block_any = True; E.block_sort = 'I'; self.n = P(var('n')); self.m = P(var('m')); self.assume(ge(self.n, 1), ge(self.m, 1)); self.arg = {}
    def nonneg(self, x):
        c = ge(x, 0)
        if c not in self.pr.axioms: self.pr.axioms.append(c)
        return x
    def params(self, names):
        K = self.K
        for k in names:
            if k in EL:
                es, so = EL[k]; ln = {'ix': self.n, 'px': self.n, 'tt': self.n, 'vx': self.n, 'dx': self.n, 'zx': self.n, 'iy': self.m, 'vy': self.m, 'dy': self.m}.get(k, P(var('len_' + k)))
                self.plain('b_' + k, es, so, const=TY[k].startswith('const'))
                if so == 'I': self.unsigned('b_' + k)
                self.obj(k, {K['v_cap']: ln, K['v_len']: ln, K['v_data']: Ptr('b_' + k, 0)}); self.arg[k] = Ptr(k, 0)
            elif k in ('S', 'J'): self.obj(k); self.arg[k] = Ptr(k, 0)
            elif k == 'rj': self.plain('rj', 1, 'I'); self.unsigned('rj'); self.arg[k] = Ptr('rj', 0)
            elif k == 'dep': self.arg[k] = var_bool('dependency')
            else: self.arg[k] = self.nonneg(P(var(k)))
        return [self.arg[k] for k in names]
    def object(self, cls):
        """the user defined function: an object with the table of virtual functions of its class"""
        line = [l for g, l in self.M.globals.items() if g.lstrip('@') == '_ZTVN5CppAD%d%sIdEE' % (len(cls), cls)]
        if not line: raise Unsupported('virtual functions of ' + cls)
        body = line[0][line[0].index('{ [', line[0].index('=')):]; fs = re.findall(r'ptr (null|@"?[\w.$]+"?)', body)[2:]
        def rd(E, s, o, off, w, sort):
            c = off.cval()
            if c is None or c % 8 or not 0 <= c // 8 < len(fs): raise Unsupported('virtual function')
            return FuncPtr(fs[int(c // 8)])
        self.E.bases['vtable'] = rd; self.st.mem['vtable'] = Obj('vtable', 'vtable', (), None, {'const': True}); self.obj('afun', {0: Ptr('vtable', 0)}, const=True)
        if hasattr(self, 'method'): self.E.contracts[r'CppAD::atomic_(base|three|four)<double>::'] = self.method
    def elem(self, st, v, k, es, so):
        d = self.E.read_obj(st, self.E.getobj(st, v.obj), v.off + self.K['v_data'], 8, 'P')
        if not isinstance(d, Ptr): raise Unsupported('vector argument')
        return self.E.read_obj(st, self.E.getobj(st, d.obj), d.off + P(k) * es, es, so)
    def length(self, st, v): return self.E.read_obj(st, self.E.getobj(st, v.obj), v.off + self.K['v_len'], 8, 'I')
    def flag(self, st, v, k): return self.E.cast(st, 'trunc', self.elem(st, v, k, 1, 'I'), ('int', 8), ('int', 1))
class Dispatch(Base):
    def __init__(self, M, name, type):
        Base.__init__(self, M, 'call_atomic_%s (%s)' % (name, CLS[type])); self.fn = name; self.type = type; self.object(CLS[type])
        self.E.contracts[r'local::atomic_index<'] = self.index
        self.st.ghost['log'] = ()
    def index(self, E, st, a, ins, d):
        ref = lambda p, w: E.read_obj(st, E.getobj(st, p.obj), p.off, w, 'I') if isinstance(p, Ptr) else p
        self.eq(st, ref(a[1], 8), self.arg['ai'], 'the atomic function that is looked up')
        c = ref(a[0], 1); c = c if isinstance(c, Cond) else E.cast(st, 'trunc', c, ('int', 8), ('int', 1)); self.holds(st, Not(c), 'the atomic function is not removed')
        E.write(st, a[2], P(self.type), 8, 'I'); E.write(st, a[4], Ptr('afun', 0), 8, 'P'); return P(var('n_atomic'))
    def method(self, E, st, a, ins, d):
        name = re.search(r'::(\w+)(<[^(]*>)?\(', d[d.index('atomic_'):]).group(1); m = re.search(r'atomic_(base|three|four)', d).group(0)
        self.eq(st, a[0], Ptr('afun', 0), 'the object that is called'); want, args = METHOD[self.fn][self.type]
        self.true(m == CLS[self.type], 'the class of the object', d)
        if name == 'set_old':
            self.true(self.type == 2, 'the old interface', d); self.eq(st, a[1], self.arg['ci'], 'the identifier of the call')
            st.ghost['log'] += ('set_old',); return None
        args = args.split(); ok = FALSE
        self.true(name == want, 'the function that is called', d)
        if len(a) - 1 == len(args) - 1 and 'Z' in args and 'call' in st.ghost['log']: args = [x for x in args if x != 'Z']      # deprecated version
        elif 'call' in st.ghost['log']: self.true(False, 'the function is called once', d)
        self.true(len(a) - 1 == len(args), 'the number of arguments', d)
        for x, k in zip(a[1:], args):
            if k == 'E': self.eq(st, self.length(st, x), ZERO, 'the vectors of types are empty')
            elif k == 'Z':
                self.eq(st, self.length(st, x), self.n, 'the size of the identically zero arguments'); j = P(fresh('j', 'I')); s = st.fork(ge(j, 0), lt(j, self.n))
                t = self.elem(s, self.arg['tt'], j, 4, 'I'); v = self.elem(s, self.arg['px'], j, 8, 'R')
                for c, w in ((gt(t, self.K['const']), FALSE), (And(le(t, self.K['const']), Not(eq0(v))), FALSE), (And(le(t, self.K['const']), eq0(v)), TRUE)):
                    s2 = s.fork(c)
                    if self.pr.feasible(s2.pc): self.iff(s2, self.flag(s2, x, j), w, 'the arguments that are identically zero constants')
            elif k == 'dep': self.iff(st, x, self.arg['dep'], 'argument ' + k)
            else: self.eq(st, x, self.arg[k], 'argument ' + k)
        st.ghost['log'] += ('call',)
        if ins.ty[0] == 'void' or 'set_old' in d: return None
        b = fresh_bool('ok'); st.ghost['ok'] = b; return b
    def check(self):
        ps = CALLS[self.fn][0]; self.call('w_' + self.fn, self.params(ps))
        for st, r in self.outs:
            l = st.ghost['log']; first = ('set_old', 'call') if self.type == 2 else ('call',)
            self.true(l[:len(first)] == first and (len(l) == len(first) or (l[len(first):] == ('call',) and 'Z' in METHOD[self.fn][4][1].split() and self.type == 4)), 'the function is called once (the old interface after its identifier)', str(l))
            if self.fn == 'rev_depend' and self.type == 4 and len(l) == 1: self.holds(st, st.ghost['ok'], 'the deprecated version is called if the function fails')
        return self.done()
class Callback(Base):
    loop = sparsity.Sweep.loop; S0 = sparsity.Sweep.S0; truth = sparsity.Sweep.truth; R = sparsity.Sweep.R; who = sparsity.Sweep.who; setop = sparsity.Sweep.setop; it_get = sparsity.Sweep.it_get; it_inc = sparsity.Sweep.it_inc
    op = ''
    def __init__(self, M, cls, fn):
        Base.__init__(self, M, 'atomic_%s::%s' % (cls, fn)); E = self.E; self.cls = cls; self.fn = fn; self.object('atomic_' + cls); self.cands = []; self.els = []; self.npat = 0
        self.names = SPARSE[fn][0][cls] + SPARSE[fn][1]; self.args = self.params(self.names); self.hes = 'hes' in fn
        self.base = self.arg['np1'] if fn.startswith('for_hes') else ZERO; self.end = self.arg['np1'] if fn.startswith('for_hes') else P(var('end')); self.assume(ge(self.end, 1))
        self.st.ghost.update({'ops': (), 'it': {}, 'V': None, 'pats': (), 'in': True}); nothing = lambda E, st, a, ins, d: None
        U = lambda op: (lambda E, st, a, ins, d: self.setop(st, op(st, a))); w = self.who
        E.contracts.update({
            r'CppAD::atomic_(three|four)<double>::(jac|hes)_sparsity\(': self.user, r'thread_alloc::delete_array<': nothing, r'thread_alloc::return_memory\(': nothing,
            r'AbsSet::process_post\(': U(lambda st, a: ('commit', w(st, a[0]), P(a[1]))), r'AbsSet::post_element\(': U(lambda st, a: ('post', w(st, a[0]), P(a[1]), P(a[2]))),
            r'AbsSet::add_element\(': U(lambda st, a: ('add', w(st, a[0]), P(a[1]), P(a[2]))),
            r'AbsSet::binary_union\(': U(lambda st, a: ('union', w(st, a[0]), P(a[1]), ((w(st, a[0]), P(a[2])), (w(st, a[4]), P(a[3]))))),
            r'AbsSet::assignment\(': U(lambda st, a: ('union', w(st, a[0]), P(a[1]), ((w(st, a[3]), P(a[2])),))),
            r'AbsSet::end\(\)': lambda E, st, a, ins, d: self.end_of(a[0]), r'AbsSet::number_elements\(': lambda E, st, a, ins, d: self.count(st, a[0], a[1]),
            r'AbsSet::is_element\(': lambda E, st, a, ins, d: self.member(st.ghost['ops'], w(st, a[0]), P(a[1]), P(a[2])),
            r'AbsSet::const_iterator::const_iterator\(AbsSet const&, unsigned long\)': self.it_new, r'AbsSet::const_iterator::operator\*\(\)': self.it_get, r'AbsSet::const_iterator::operator\+\+\(\)': self.it_inc})
        E.loop_hook = self.hook
    # ------------------------------------------------------------ sets
    def end_of(self, p): return ONE if p.obj == 'J' and self.fn.startswith('for_hes') else self.end
    def first(self, st, o, k): return self.nonneg(app('first_%s%d' % (o, len(st.ghost['ops'])), [P(k)], 'I'))
    def NE(self, st, o, k): return lt(self.first(st, o, k), self.end_of(Ptr(o, 0)))
    def count(self, st, p, k): return ite(self.NE(st, p.obj, k), 1 + self.nonneg(app('more', [P(k)], 'I')), ZERO)
    def it_new(self, E, st, a, ins, d):
        st.ghost['it'] = dict(st.ghost['it']); st.ghost['it'][a[0]] = (self.who(st, a[1]), P(a[2]), 'first', self.first(st, a[1].obj, a[2])); return None
    def flat(self, ops):
        for x in ops:
            if x[0] == 'each': yield from self.flat(x[3])
            elif x[0] not in ('post', 'commit'): yield x
    def flag(self, *a):
        if isinstance(a[1], Ptr): return Base.flag(self, *a)
        return sparsity.Sweep.flag(self, *a)
    def at(self, x): return self.els if x[5] else self.cands
    def commits(self, ops, o, k):
        r = []
        for x in ops:
            if x[0] == 'commit' and x[1] == o: r.append(eq(P(k), x[2]))
            if x[0] == 'each':
                f = And(x[2], self.commits(x[3], o, k)); r += [subst(f, {list(x[1].vars())[0]: P(c)}) for c in self.at(x)]
        return Or(*r) if r else FALSE
    def member(self, ops, o, k, e, base=None, com=FALSE):
        """lower bound of membership after the operations: elements that are posted count if the set is processed later"""
        if not ops: return (base or self.S0)(o, k, e)
        x = ops[-1]; r = ops[:-1]; rec = lambda o, k, e, c=com: self.member(r, o, k, e, base, c)
        if x[0] == 'commit': return rec(o, k, e, Or(com, eq(P(k), x[2])) if x[1] == o else com)
        if x[0] == 'each':
            f = And(x[2], self.member(x[3], o, k, e, lambda o, k, e: self.member(r, o, k, e, base, com), com)); c2 = Or(com, self.commits((x,), o, k))
            return Or(rec(o, k, e, c2), *[subst(f, {list(x[1].vars())[0]: P(c)}) for c in self.at(x)])
        if x[1] != o: return rec(o, k, e)
        hit = eq(P(k), x[2])
        if hit is FALSE: return rec(o, k, e)
        if x[0] == 'post': return Or(rec(o, k, e), And(com, hit, eq(P(e), x[3])))
        if x[0] == 'add': new = Or(rec(o, k, e), eq(P(e), x[3]))
        else: new = Or(*[rec(so, sk, e) for so, sk in x[3]]) if x[3] else FALSE
        return Or(And(hit, new), And(Not(hit), rec(o, k, e)))
    def hook(self, E, st, env, f, L, prev):
        calls = [E.M.dem.get(i.a[0][1], i.a[0][1]) for b in L.body for i in f.blocks[b].ins if i.op in ('call', 'invoke') and i.a[0][0] == 'glob']
        if any(re.search(r'AbsSet::(post|add|process|binary|assign|const_iterator::operator\+\+)', c) for c in calls): return self.loop(E, st, env, f, L, prev)
        if any(i.op == 'store' for b in L.body for i in f.blocks[b].ins) and self.writes_flags(E, st, env, f, L, prev): return self.loop(E, st, env, f, L, prev)
        return E.loop_default(st, env, f, L, prev)
    def writes_flags(self, E, st, env, f, L, prev):
        try: H, init = E.loop_entry(st, env, f, L, prev)
        except Unsupported: return False
        s1 = st.fork(); e1 = dict(env)
        for ph in H.phis:
            if ph.ty[0] != 'int' or ph.ty[1] == 1: return False
            e1[ph.res] = P(fresh('q', 'I')); self.nonneg(e1[ph.res])
        outs = E.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header)
        return any('rj' in o.st.mem and o.st.mem['rj'].upds != st.mem['rj'].upds for o in outs) if 'rj' in st.mem else False
    # ------------------------------------------------------------ the user function
    def X(self, j): return self.E.read_obj(self.st, self.st.mem['b_ix'], P(j) * 8, 8, 'I')
    def Y(self, i): return self.E.read_obj(self.st, self.st.mem['b_iy'], P(i) * 8, 8, 'I')
    def user(self, E, st, a, ins, d):
        kind = re.search(r'::(jac|hes)_sparsity\(', d).group(1); K = self.K; a = list(a); self.eq(st, a[0], Ptr('afun', 0), 'the object that is called')
        if st.ghost['ops']: self.true(kind == 'hes', 'the Jacobian pattern is requested first')
        want = [k for k in self.names if k in ('ci', 'dep', 'px', 'tt', 'zx')]; old = self.cls == 'four' and len(a) == {'jac': 6, 'hes': 5}[kind]
        if old: want.remove('zx')
        if kind == 'jac' and 'dep' not in want:
            if self.cls == 'four': want.insert(1, 'dep')
            else: want.append('dep')
        elif kind == 'jac' and self.cls == 'three': want = ['px', 'tt', 'dep']
        for x, k in zip(a[1:], want):
            if k == 'dep': self.iff(st, x, self.arg.get('dep', FALSE), 'the kind of pattern')
            else: self.eq(st, x, self.arg[k], 'argument ' + k)
        vx, vy, pat = a[1 + len(want):][:3]; j = P(fresh('j', 'I')); i = P(fresh('i', 'I')); s0 = State(); s0.ghost = {'ops': ()}
        sj = st.fork(ge(j, 0), lt(j, self.n)); si = st.fork(ge(i, 0), lt(i, self.m)); X = self.X(j); Y = self.Y(i); b = self.base
        self.eq(st, self.length(st, vx), self.n, 'the number of selected arguments'); self.eq(st, self.length(st, vy), self.m, 'the number of selected results')
        for x in (b + X, Y): self.nonneg(app('more', [x], 'I'))
        need = {'for_jac_sparsity': (And(gt(X, 0), self.NE(s0, 'S', X)), gt(Y, 0)), 'rev_jac_sparsity': (gt(X, 0), And(gt(Y, 0), self.NE(s0, 'S', Y))),
                'for_hes_sparsity': (And(gt(X, 0), self.NE(s0, 'S', b + X)), And(gt(Y, 0), self.NE(s0, 'J', Y))) , 'rev_hes_sparsity': (gt(X, 0), And(gt(Y, 0), self.truth(st, E.read_obj(st, self.st.mem['rj'], Y, 1, 'I')) if 'rj' in self.st.mem else TRUE))}[self.fn]
        for s, v, k, c, what in ((sj, vx, j, need[0], 'arguments'), (si, vy, i, need[1], 'results')):
            s = s.fork(c)
            if self.pr.feasible(s.pc): self.iff(s, self.flag(s, v, k), TRUE, 'the %s that matter are selected' % what)
        self.npat += 1; num = self.npat; nnz = self.nonneg(P(var('nnz%d' % num)))
        for f in ('row', 'col'):
            nm = '%s%d' % (f, num); self.plain_in(st, nm)
            for o, v, so in ((K['v_data'], Ptr(nm, 0), 'P'), (K['v_len'], nnz, 'I'), (K['v_cap'], nnz, 'I')): E.write(st, Ptr(pat.obj, pat.off + K['rc_' + f] + o), v, 8, so)
        E.write(st, Ptr(pat.obj, pat.off + K['rc_nnz']), nnz, 8, 'I')
        for o, v in (('rc_nr', self.m if kind == 'jac' else self.n), ('rc_nc', self.n)): E.write(st, Ptr(pat.obj, pat.off + K[o]), v, 8, 'I')
        ok = fresh_bool('ok'); st.ghost['pats'] += ((kind, num, ok, old, nnz),); return ok
    def plain_in(self, st, nm):
        st.mem[nm] = Obj(nm, nm, (), None, {'esize': 8, 'sort': 'I'}); self.unsigned(nm); lim = self.n
    def entry(self, st, num, nnz, hes):
        k = P(fresh('k', 'I')); s = st.fork(ge(k, 0), lt(k, nnz)); r = sel('row%d' % num, k * 8, 'I', 8); c = sel('col%d' % num, k * 8, 'I', 8); r = self.nonneg(P(r)); c = self.nonneg(P(c))
        return k, s.fork(lt(r, self.n if hes else self.m), lt(c, self.n)), r, c
    def check(self):
        self.call('w_%s_%s' % (self.cls, self.fn), [Ptr('afun', 0)] + self.args); some = False
        for st, ret in self.outs:
            pats = st.ghost['pats']; last = {}
            for i, p in enumerate(pats):
                last[p[0]] = p
                if self.cls == 'four' and not p[3]:
                    again = i + 1 < len(pats) and pats[i + 1][0] == p[0] and pats[i + 1][3]
                    if not again: self.holds(st, p[2], 'the deprecated version is called if the function fails')
            self.true('jac' in last, 'the Jacobian pattern is requested')
            if 'hes' not in last and self.hes: self.holds(st, Not(last['jac'][2]), 'the Hessian pattern is requested')
            self.iff(st, ret, And(*[p[2] for p in last.values()]) if self.hes <= ('hes' in last) else FALSE, 'the result is false if the user function fails')
            st = st.fork(*[p[2] for p in last.values()])
            if not self.pr.feasible(st.pc) or self.hes > ('hes' in last): continue
            some = True; ops = st.ghost['ops']; m = lambda o, k, e: self.member(ops, o, k, e); e = P(fresh('e', 'I')); q = P(fresh('set', 'I')); st = st.fork(ge(e, 0), lt(e, self.end), ge(q, 0))
            self.cands = []; self.els = [e]; self.holds(st.fork(self.S0('S', q, e)), m('S', q, e), 'no element is lost'); b = self.base
            k, s, i, j = self.entry(st, last['jac'][1], last['jac'][4], False); X = self.X; Y = self.Y
            self.cands = [k] + ([i] if self.fn.startswith('for') else [j])
            src, dst = (b + X(j), b + Y(i)) if self.fn.startswith('for') else (Y(i), X(j))
            self.holds(s.fork(self.S0('S', src, e)), m('S', dst, e), 'the elements are propagated for every entry of the Jacobian pattern')
            if self.fn.startswith('rev_hes'):
                z = P(fresh('z', 'I')); self.holds(s, self.R(s, self.st, X(j)), 'the arguments of every entry of the Jacobian pattern affect the function')
                sz = s.fork(self.flag(self.st, self.st.mem['rj'], z)); self.holds(sz, self.R(sz, self.st, z), 'no flag is lost')
            if not self.hes: continue
            k, s, r, c = self.entry(st, last['hes'][1], last['hes'][4], True); e2 = P(fresh('e2', 'I')); s = s.fork(ge(e2, 0), lt(e2, self.end)); self.cands = [k]; self.els = [e, e2]
            for g, h, what in ((r, c, ''), (c, r, ' (transpose)')):
                if self.fn.startswith('for'): self.holds(s.fork(self.S0('S', b + X(g), e), self.S0('S', b + X(h), e2)), m('S', e, e2), 'every entry of the Hessian pattern is included' + what)
                else: self.holds(s.fork(self.S0('J', X(h), e)), m('S', X(g), e), 'every entry of the Hessian pattern is included' + what)
        self.true(some, 'the user function can succeed'); return self.done()
def run_dispatch(M, n, t): return Dispatch(M, n, t).check()
def run_callback(M, c, f): return Callback(M, c, f).check()
def add(ctx):
    M = ctx.module_of(load, 'callback')
    if M is None: return
    for n in CALLS:
        for t in CLS: ctx.task('call_atomic_%s, %s' % (n, CLS[t]), run_dispatch, M, n, t)
    for c in ('three', 'four'):
        for f in SPARSE: ctx.task('atomic_%s::%s' % (c, f), run_callback, M, c, f)
if __name__ == '__main__':
    import sys, time
    M = load(); js = [(run_dispatch, n, t) for n in CALLS for t in CLS] + [(run_callback, c, f) for c in ('three', 'four') for f in SPARSE]
    for f, a, b in js:
        if len(sys.argv) > 1 and not re.search(sys.argv[1], '%s %s' % (a, b)): continue
        t0 = time.time()
        try: print(a, b, len(f(M, a, b)), '%.1f s' % (time.time() - t0))
        except (Unsupported, ObligationFailed, NeedSplit) as e: print(a, b, type(e).__name__, str(e)[:1500])
