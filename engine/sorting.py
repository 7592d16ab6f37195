"""C16: contracts of index_sort and of the sparsity index structure sparse_rc."""
from terms import *
from symex import *
from fn import *
import build
FIELDS = ('nr_', 'nc_', 'nnz_', 'row_', 'col_', 'row_major_', 'col_major_')
def driver():
    s = '''#include <cppad/cppad.hpp>
#include <cstddef>
using namespace CppAD;
typedef CppAD::vector<size_t> SV; typedef CppAD::vector<double> DV; typedef sparse_rc<SV> RC;
typedef index_sort_element<size_t, size_t> El;
extern "C" {
long K_v_len = offsetof(SV, length_), K_v_cap = offsetof(SV, capacity_), K_v_data = offsetof(SV, data_), K_el = sizeof(El);
'''
    for f in FIELDS: s += 'long K_%s = offsetof(RC, %s);\n' % (f, f)
    return s + '''
void w_sort(const SV& k, SV& i) { index_sort(k, i); }
bool w_less(const El& a, const El& b) { return a < b; }
void w_set(RC& p, size_t k, size_t r, size_t c) { p.set(k, r, c); }
void w_push(RC& p, size_t r, size_t c) { p.push_back(r, c); }
void w_resize(RC& p, size_t nr, size_t nc, size_t n) { p.resize(nr, nc, n); }
void w_ctor(RC* p, size_t nr, size_t nc, size_t n) { new(p) RC(nr, nc, n); }
void w_copy(RC* p, const RC& o) { new(p) RC(o); }
void w_assign(RC& p, const RC& o) { p = o; }
void w_swap(RC& p, RC& o) { p.swap(o); }
bool w_eq(const RC& p, const RC& o) { return p == o; }
void w_row_major(SV* v, const RC& p) { new(v) SV(p.row_major()); }
void w_col_major(SV* v, const RC& p) { new(v) SV(p.col_major()); }
void w_set_row_major(RC& p) { p.set_row_major(); }
void w_set_col_major(RC& p) { p.set_col_major(); }
size_t w_nr(const RC& p) { return p.nr(); }
size_t w_nc(const RC& p) { return p.nc(); }
size_t w_nnz(const RC& p) { return p.nnz(); }
const SV* w_row(const RC& p) { return &p.row(); }
const SV* w_col(const RC& p) { return &p.col(); }
}
'''
def load(): return build.ir(driver(), 'sorting', extra=['-fno-access-control'])
class R(Fn):
    def __init__(self, M, label):
        Fn.__init__(self, M, label); self.E.block_sort = 'I'; self.V = {k: self.K['v_' + k] for k in ('len', 'cap', 'data')}; self.own = {}
        self.E.contracts[r'CheckSimpleVector'] = lambda E, st, a, i, d: [(st, None)]
    def vfields(self, name, L, cap=None, const=False):
        """fields of a vector of size L that owns a block"""
        if cap is None: cap = P(var(name + '.cap')); self.assume(ge(cap, 1), ge(L, 0), le(L, cap))
        b = self.block(name, 8, 'I', cap * 8, const); self.unsigned(name)
        return {self.V['len']: L, self.V['cap']: cap, self.V['data']: b}
    def svec(self, n, L, const=False):
        f = self.vfields(n + '.data', L, const=const); return self.obj(n, f, const)
    def rc(self, n, const=False, rm=None, cm=None):
        K = self.K; nr, nc, nnz = (P(var(n + '.' + x)) for x in ('nr', 'nc', 'nnz')); self.assume(ge(nr, 1), ge(nc, 1), ge(nnz, 0))
        f = {K['nr_']: nr, K['nc_']: nc, K['nnz_']: nnz}
        rml = P(var(n + '.rml')); cml = P(var(n + '.cml'))
        for x in (rml, cml): self.assume(Or(eq(x, 0), eq(x, nnz)))
        for k, L in (('row_', nnz), ('col_', nnz), ('row_major_', rml), ('col_major_', cml)):
            for o, v in self.vfields(n + '.' + k, L, const=const).items(): f[K[k] + o] = v
        for k in ('row_', 'col_'):
            bound = nr if k == 'row_' else nc
            def rd(E, s, o, off, w, sort, b=n + '.' + k, bound=bound):
                v = sel(b, off, sort, w)
                for c in (ge(v, 0), lt(v, bound)):
                    if c not in E.pr.axioms: E.pr.axioms.append(c)
                return v
            self.E.bases[n + '.' + k] = rd
        for k, fn in (('row_major_', 'rm'), ('col_major_', 'cm')):
            def rd(E, s, o, off, w, sort, n=n, fn=fn): return self.order(fn, n, off / 8, nnz)
            self.E.bases[n + '.' + k] = rd
        self.own[n] = (nr, nc, nnz, rml, cml, f)
        return self.obj(n, f, const)
    def order(self, fn, n, k, nnz):
        v = app(fn, [n, k], 'I')
        for c in (ge(v, 0), lt(v, nnz)):
            if c not in self.pr.axioms: self.pr.axioms.append(c)
        return v
    def vlen(self, st, n, k): return self.field(st, n, self.K[k] + self.V['len'])
    def vdata(self, st, n, k): return self.field(st, n, self.K[k] + self.V['data'], 'P')
    def el(self, st, n, k, J): return self.read(st, self.vdata(st, n, k), J * 8, 8, 'I')
    def el0(self, n, k, J):
        if k == 'row_major_': return self.order('rm', n, J, self.own[n][2])
        if k == 'col_major_': return self.order('cm', n, J, self.own[n][2])
        return sel(n + '.' + k, J * 8, 'I', 8)
    def same(self, st, n, src, what, ks=('row_', 'col_', 'row_major_', 'col_major_')):
        o = self.own[src]
        for k, v in zip(('nr_', 'nc_', 'nnz_'), o): self.eq(st, self.field(st, n, self.K[k]), v, what)
        for k, L in zip(('row_', 'col_', 'row_major_', 'col_major_'), (o[2], o[2], o[3], o[4])):
            if k not in ks: continue
            self.eq(st, self.vlen(st, n, k), L, what)
            J = P(fresh('J', 'I')); s2 = st.fork(ge(J, 0), lt(J, L))
            if self.pr.feasible(s2.pc): self.eq(s2, self.el(s2, n, k, J), self.el0(src, k, J), what)
    def blocks(self, st, names, lost=True):
        used = []
        for n in names:
            for k in ('row_', 'col_', 'row_major_', 'col_major_'):
                cap = self.field(st, n, self.K[k] + self.V['cap'])
                if self.pr.prove(st.pc, eq(cap, 0)): continue
                d = self.vdata(st, n, k)
                self.true(isinstance(d, Ptr) and d.obj in st.ghost['live'], 'every vector owns its block', str(d)); used.append(d.obj)
        self.true(len(set(used)) == len(used), 'no block is shared', str(used))
        self.true(not (st.ghost['live'] - set(used)), 'no block is lost', str(st.ghost['live'] - set(used)))
def sort_contract(v, n, keyof):
    """std::sort of an array of index_sort_element: afterwards element t is the element pi(t) of before"""
    def h(E, st, a, ins, dem):
        es = v.K['el']; b, e = a[0], a[1]
        v.true(isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == e.obj and b.off.cval() == 0, 'the work array is sorted from its first element')
        v.eq(st, e.off, n * es, 'exactly the work array is sorted')
        x = P(fresh('x', 'I')); s2 = st.fork(ge(x, 0), lt(x, n)); o = st.mem[b.obj]
        cells = {off: E.read_obj(s2, o, x * es + off, 8, 'I') for off in (0, 8)} if es == 16 else None
        if cells is None: raise Unsupported('element size')
        keys = [off for off in cells if v.pr.prove(s2.pc, eq(cells[off], keyof(x)))]
        v.true(keys, 'the sort key of element k is keys[k]', str(cells)); v.ghost_key = keys[0]
        t = fresh('t', 'I'); pi = app('pi', [P(t)], 'I')
        for off, val in cells.items(): o = o.with_upd(Upd('pt', P(t) * es + off, subst(val, {list(x.vars())[0]: pi}), 8, 'I', ((t, n),)))
        st.mem[b.obj] = o
        return [(st, None)]
    return h
def run_sort(M):
    v = R(M, 'index_sort'); n = P(var('n')); v.assume(ge(n, 0)); k = v.svec('keys', n, True); ind = v.svec('ind', n)
    v.E.contracts = dict(v.E.contracts); v.E.contracts[r'void std::sort<'] = sort_contract(v, n, lambda x: sel('keys.data', x * 8, 'I', 8))
    v.E.block_esize = 8
    for st, r in v.call('w_sort', [k, ind]):
        J = P(fresh('J', 'I')); s2 = st.fork(ge(J, 0), lt(J, n))
        v.eq(st, v.field(st, 'ind', v.V['len']), n, 'size of the result')
        if v.pr.feasible(s2.pc): v.eq(s2, v.read(s2, v.field(s2, 'ind', v.V['data'], 'P'), J * 8, 8, 'I'), app('pi', [J], 'I'), 'the result is the sorting permutation')
        v.true(st.ghost['live'] == v.st.ghost['live'], 'the work array is returned to the allocator')
    # the order used by the sort is the order of the keys
    w = Fn(M, 'index_sort_element::operator<'); key = getattr(v, 'ghost_key', 0)
    a, b = w.plain('x', 8, 'I', True), w.plain('y', 8, 'I', True); w.unsigned('x'); w.unsigned('y')
    for st, r in w.call('w_less', [a, b]): w.iff(st, r, lt(sel('x', P(key), 'I', 8), sel('y', P(key), 'I', 8)), 'compares the keys')
    return v.done() + w.done()
def index_sort_contract(v, which, n, key):
    """index_sort(keys, ind): ind becomes the permutation that sorts the keys"""
    def h(E, st, a, ins, dem):
        kp, ip = a
        L = v.E.read_obj(st, st.mem[kp.obj], kp.off + v.V['len'], 8, 'I'); d = v.E.read_obj(st, st.mem[kp.obj], kp.off + v.V['data'], 8, 'P')
        nnz = v.own[n][2]; nr, nc = v.own[n][:2]
        v.eq(st, L, nnz, 'every entry has a key')
        v.eq(st, v.E.read_obj(st, st.mem[ip.obj], ip.off + v.V['len'], 8, 'I'), nnz, 'every entry has a place in the order')
        x, y = P(fresh('x', 'I')), P(fresh('y', 'I')); s2 = st.fork(ge(x, 0), lt(x, nnz), ge(y, 0), lt(y, nnz))
        if not v.pr.feasible(s2.pc): return [(st, None)]
        kx, ky = v.read(s2, d, x * 8, 8, 'I'), v.read(s2, d, y * 8, 8, 'I')
        maj, mnr = ('row_', 'col_') if which == 'row_major_' else ('col_', 'row_')
        A, B, C, D = v.el0(n, maj, x), v.el0(n, maj, y), v.el0(n, mnr, x), v.el0(n, mnr, y)
        for t in (A, B, C, D): v.E.read_obj(s2, st.mem[n + '.row_'], x * 8, 8, 'I')
        rng = (ge(A, 0), ge(B, 0), ge(C, 0), ge(D, 0), lt(C, nc if maj == 'row_' else nr), lt(D, nc if maj == 'row_' else nr))
        for cond, goal in ((lt(A, B), lt(kx, ky)), (gt(A, B), gt(kx, ky)), (And(eq(A, B), lt(C, D)), lt(kx, ky)), (And(eq(A, B), gt(C, D)), gt(kx, ky)), (And(eq(A, B), eq(C, D)), eq(kx, ky))):
            s3 = s2.fork(*(rng + (cond,)))
            sc = nc if maj == 'row_' else nr
            facts = (lt(A, B), le0((A + 1 - B) * sc)) if False else ()
            extra = ()
            if cond == lt(A, B): extra = (le((A + 1) * sc, B * sc),)
            if cond == gt(A, B): extra = (le((B + 1) * sc, A * sc),)
            if cond.k == 'and': extra = (eq(A * sc, B * sc),)
            nme = v.name('the keys order the entries %s' % ('by row, then column' if maj == 'row_' else 'by column, then row'))
            if not v.pr.prove(s3.pc + extra, goal): raise ObligationFailed(nme, 'keys %s and %s when %s' % (kx, ky, cond))
        di = v.E.read_obj(st, st.mem[ip.obj], ip.off + v.V['data'], 8, 'P'); t = fresh('t', 'I')
        o = st.mem[di.obj]
        st.mem[di.obj] = o.with_upd(Upd('pt', P(t) * 8, v.order('rm' if which == 'row_major_' else 'cm', n, P(t), nnz), 8, 'I', ((t, nnz),)))
        return [(st, None)]
    return h
def order_contract(v, fn, which):
    """row_major() / col_major() of pattern n by their contract"""
    def h(E, st, a, ins, dem):
        sret, this = a[0], a[1]; n = this.obj; nnz = v.own[n][2]
        blk = E.new_obj(st, 'uninit', P(fresh('cap', 'I')), 'blk', esize=8, sort='I', block=True); st.ghost['live'] = st.ghost['live'] | {blk}
        t = fresh('t', 'I')
        cap = P(fresh('cap', 'I')); st.pc = st.pc + (ge(cap, nnz), ge(cap, 1))
        st.mem[blk] = st.mem[blk].with_upd(Upd('pt', P(t) * 8, v.order(fn, n, P(t), nnz), 8, 'I', ((t, nnz),)))
        for k, val, s in (('len', nnz, 'I'), ('cap', cap, 'I'), ('data', Ptr(blk, 0), 'P')): E.write(st, Ptr(sret.obj, sret.off + v.V[k]), val, 8, s)
        return [(st, None)]
    return h
def run(M, op):
    v = R(M, 'sparse_rc ' + op); K = v.K
    if op in ('set', 'push', 'resize'):
        p = v.rc('p'); nr, nc, nnz, rml, cml, f = v.own['p']
        k, r, c = (P(var(x)) for x in 'krc'); v.assume(ge(k, 0), ge(r, 0), ge(c, 0))
        if op == 'set': v.assume(lt(k, nnz))
        n2 = P(var('n2')); v.assume(ge(n2, 0))
        for st, ret in v.call('w_' + op, {'set': [p, k, r, c], 'push': [p, r, c], 'resize': [p, r, c, n2]}[op]):
            want = {'set': (nr, nc, nnz), 'push': (nr, nc, nnz + 1), 'resize': (r, c, n2)}[op]
            for x, w in zip(('nr_', 'nc_', 'nnz_'), want): v.eq(st, v.field(st, 'p', K[x]), w, 'dimensions')
            for x in ('row_', 'col_'): v.eq(st, v.vlen(st, 'p', x), want[2], 'size of the index vectors')
            for x in ('row_major_', 'col_major_'): v.eq(st, v.vlen(st, 'p', x), 0, 'stored orders are dropped')
            if op != 'resize':
                pos = k if op == 'set' else nnz
                v.eq(st, v.el(st, 'p', 'row_', pos), r, 'row of the entry'); v.eq(st, v.el(st, 'p', 'col_', pos), c, 'column of the entry')
                J = P(fresh('J', 'I')); s2 = st.fork(ge(J, 0), lt(J, nnz), Not(eq(J, pos)))
                if v.pr.feasible(s2.pc):
                    for x in ('row_', 'col_'): v.eq(s2, v.el(s2, 'p', x, J), v.el0('p', x, J), 'no other entry changes')
            v.blocks(st, ['p'])
    elif op == 'ctor':
        v.st.mem['p'] = Obj('p', 'uninit', (), None, {}); r, c, n2 = (P(var(x)) for x in ('r', 'c', 'n2')); v.assume(ge(n2, 0))
        for st, ret in v.call('w_ctor', [Ptr('p', 0), r, c, n2]):
            for x, w in zip(('nr_', 'nc_', 'nnz_'), (r, c, n2)): v.eq(st, v.field(st, 'p', K[x]), w, 'dimensions')
            for x in ('row_', 'col_'): v.eq(st, v.vlen(st, 'p', x), n2, 'size of the index vectors')
            for x in ('row_major_', 'col_major_'): v.eq(st, v.vlen(st, 'p', x), 0, 'no stored order')
    elif op in ('copy', 'assign'):
        if op == 'copy': v.st.mem['p'] = Obj('p', 'uninit', (), None, {}); p = Ptr('p', 0)
        else: p = v.rc('p')
        o = v.rc('o', const=True)
        for st, ret in v.call('w_' + op, [p, o]): v.same(st, 'p', 'o', 'equal to the source at entry'); v.same(st, 'o', 'o', 'the source is unchanged'); v.blocks(st, ['p', 'o'])
    elif op == 'assign self':
        p = v.rc('p')
        for st, ret in v.call('w_assign', [p, p]): v.same(st, 'p', 'p', 'unchanged'); v.blocks(st, ['p'])
    elif op == 'swap':
        p = v.rc('p'); o = v.rc('o')
        for st, ret in v.call('w_swap', [p, o]): v.same(st, 'p', 'o', 'the first is the second at entry'); v.same(st, 'o', 'p', 'the second is the first at entry'); v.blocks(st, ['p', 'o'])
    elif op in ('row_major', 'col_major', 'set_row_major', 'set_col_major'):
        which = ('row_major_' if 'row' in op else 'col_major_'); p = v.rc('p', const=not op.startswith('set')); nr, nc, nnz, rml, cml, f = v.own['p']
        v.E.contracts = dict(v.E.contracts); v.E.contracts[r'void CppAD::index_sort<'] = index_sort_contract(v, which, 'p', None)
        args = [p]
        if not op.startswith('set'): v.st.mem['res'] = Obj('res', 'uninit', (), None, {}); args = [Ptr('res', 0), p]
        for st, ret in v.call('w_' + op, args):
            J = P(fresh('J', 'I')); s2 = st.fork(ge(J, 0), lt(J, nnz)); fn = 'rm' if 'row' in op else 'cm'
            if op.startswith('set'):
                v.eq(st, v.vlen(st, 'p', which), nnz, 'size of the order')
                if v.pr.feasible(s2.pc): v.eq(s2, v.el(s2, 'p', which, J), v.order(fn, 'p', J, nnz), 'the stored order is the sorting permutation')
                v.same(st, 'p', 'p', 'nothing else changes', tuple(x for x in ('row_', 'col_', 'row_major_', 'col_major_') if x != which)); v.blocks(st, ['p'])
            else:
                v.eq(st, v.E.read_obj(st, st.mem['res'], P(v.V['len']), 8, 'I'), nnz, 'size of the order')
                if v.pr.feasible(s2.pc): v.eq(s2, v.read(s2, v.E.read_obj(st, st.mem['res'], P(v.V['data']), 8, 'P'), J * 8, 8, 'I'), v.order(fn, 'p', J, nnz), 'the order is the sorting permutation of the entries')
    elif op == 'eq':
        p = v.rc('p', const=True); o = v.rc('o', const=True)
        v.E.contracts = dict(v.E.contracts)
        v.E.contracts[r'sparse_rc<.*>::row_major\('] = order_contract(v, 'rm', 'row_major_'); v.E.contracts[r'sparse_rc<.*>::col_major\('] = order_contract(v, 'cm', 'col_major_')
        a, b = v.own['p'], v.own['o']; dims = And(eq(a[0], b[0]), eq(a[1], b[1]), eq(a[2], b[2]))
        for st, r in v.call('w_eq', [p, o]):
            r = r if isinstance(r, Cond) else i2b(r)
            if v.pr.prove(st.pc, Not(dims)): v.iff(st, r, FALSE, 'different dimensions compare different'); continue
            v.holds(st, dims, 'entries are compared only when the dimensions agree')
            ok = False; det = ''
            for fn in ('rm', 'cm'):
                def at(q): return And(*[eq(v.el0('p', k, v.order(fn, 'p', q, a[2])), v.el0('o', k, v.order(fn, 'o', q, b[2]))) for k in ('row_', 'col_')])
                J = P(fresh('J', 'I')); q = fresh('q', 'I')
                rng = (ge(J, 0), lt(J, a[2]))
                if v.prove_q(st.pc + rng + (r,), at(J), (J,)) and v.prove_q(st.pc + (forall(q, ZERO, a[2] - 1, at(P(q))),), r): ok = True; break
            v.true(ok, 'equal exactly when the entries agree in the same order on both sides', v.path(st))
    elif op in ('nr', 'nc', 'nnz'):
        p = v.rc('p', const=True)
        for st, r in v.call('w_' + op, [p]): v.eq(st, r, v.own['p'][('nr', 'nc', 'nnz').index(op)], op)
    elif op in ('row', 'col'):
        p = v.rc('p', const=True)
        for st, r in v.call('w_' + op, [p]): v.eq(st, r, Ptr('p', K[op + '_']), op)
    else: raise Unsupported(op)
    return v.done()
OPS = ('set', 'push', 'resize', 'ctor', 'copy', 'assign', 'assign self', 'swap', 'row_major', 'col_major', 'set_row_major', 'set_col_major', 'eq', 'nr', 'nc', 'nnz', 'row', 'col')
if __name__ == '__main__':
    import sys, time
    M = load()
    for t in ('sort',) + OPS:
        if len(sys.argv) > 1 and t not in sys.argv[1:]: continue
        t0 = time.time()
        try: print('OK', t, len(run_sort(M) if t == 'sort' else run(M, t)), '%.1f' % (time.time() - t0))
        except (ObligationFailed, Unsupported) as e: print('FAIL', t, type(e).__name__, str(e)[:700], '%.1f' % (time.time() - t0))
