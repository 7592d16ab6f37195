"""C07: contracts of pack_setvec (bit packed vector of sets).

Abstraction: element 64 q + r is in set i when bit r of word i * n_pack + q is one.
Invariant: n_pack = 1 + (end - 1) / 64, the storage holds n_set * n_pack words, bits at and above end are zero."""
from terms import *
from symex import *
from fn import *
import build
def driver():
    return '''#include <cppad/cppad.hpp>
#include <cstddef>
using namespace CppAD; using namespace CppAD::local; using namespace CppAD::local::sparse;
typedef pack_setvec S; typedef pack_setvec::const_iterator It;
extern "C" {
long K_nbit = offsetof(S, n_bit_), K_zero = offsetof(S, zero_), K_one = offsetof(S, one_), K_nset = offsetof(S, n_set_), K_end = offsetof(S, end_), K_npack = offsetof(S, n_pack_), K_data = offsetof(S, data_);
long K_pv_size = offsetof(pod_vector<size_t>, size_), K_pv_cap = offsetof(pod_vector<size_t>, capacity_), K_pv_data = offsetof(pod_vector<size_t>, data_);
long K_bits = std::numeric_limits<S::Pack>::digits;
void w_resize(S& s, size_t n, size_t e) { s.resize(n, e); }
void w_add(S& s, size_t i, size_t e) { s.add_element(i, e); }
void w_post(S& s, size_t i, size_t e) { s.post_element(i, e); s.process_post(i); }
bool w_is(const S& s, size_t i, size_t e) { return s.is_element(i, e); }
void w_clear(S& s, size_t t) { s.clear(t); }
void w_assign(S& s, size_t t, size_t v, const S& o) { s.assignment(t, v, o); }
void w_union(S& s, size_t t, size_t l, size_t r, const S& o) { s.binary_union(t, l, r, o); }
void w_inter(S& s, size_t t, size_t l, size_t r, const S& o) { s.binary_intersection(t, l, r, o); }
void w_copy(S& s, const S& o) { s = o; }
void w_swap(S& s, S& o) { s.swap(o); }
size_t w_nset(const S& s) { return s.n_set(); }
size_t w_end(const S& s) { return s.end(); }
size_t w_count(const S& s, size_t i) { return s.number_elements(i); }
size_t w_first(const S& s, size_t i) { It it(s, i); return *it; }
size_t w_next(It& it) { ++it; return *it; }
}
'''
def load(): return build.ir(driver(), 'setvec', extra=['-fno-access-control'])
class S(Fn):
    def __init__(self, M, label):
        Fn.__init__(self, M, label); self.E.block_sort = 'I'; self.E.block_any = True; self.own = {}
        self.p = P(var('p')); self.assume(ge(self.p, 1)); self.pr.scales = [self.p]
    def packed(self, n, one, const=False, empty=False, p=None):
        """one: end == 1; otherwise end = 64 (p - 1) + r"""
        K = self.K; N = P(var(n + '.n')); d = K['data']
        if empty: N = ZERO; end = ZERO; p = ZERO; data = NULL; cap = size = ZERO
        else:
            p = ONE if one else (p if p is not None else self.p)
            if one: end = ONE
            else:
                r = P(var(n + '.r')); self.assume(ge(r, 1), le(r, 64)); end = 64 * (p - 1) + r; self.assume(ge(end, 2))
            cap = P(var(n + '.cap')); size = N * p; self.assume(ge(N, 1), le(size, cap))
            data = self.block(n + '.data', 8, 'I', cap * 8, const); self.unsigned(n + '.data')
        f = {K['nbit']: P(K['bits']), K['zero']: ZERO, K['one']: ONE, K['nset']: N, K['end']: end, K['npack']: p,
             d + K['pv_size']: size, d + K['pv_cap']: cap, d + K['pv_data']: data}
        self.own[n] = (N, end, p, f)
        return self.obj(n, f, const)
    def idx(self, name, n):
        i = P(var(name)); self.assume(ge(i, 0), lt(i, self.own[n][0])); return i
    def elem(self, n):
        N, end, p, f = self.own[n]
        if end == ONE: return ZERO, ZERO, ZERO
        q, r = P(var('q')), P(var('r')); self.assume(ge(q, 0), ge(r, 0), lt(r, 64), lt(64 * q + r, end), lt(q, p)); return 64 * q + r, q, r
    def fld(self, st, n, k, sort='I'): return self.field(st, n, self.K[k], sort)
    def data(self, st, n): return self.field(st, n, self.K['data'] + self.K['pv_data'], 'P')
    def w0(self, n, i, q): return sel(n + '.data', (i * self.own[n][2] + q) * 8, 'I', 8)
    def w(self, st, n, i, q, p=None): return self.read(st, self.data(st, n), (i * (self.own[n][2] if p is None else p) + q) * 8, 8, 'I')
    def shape(self, st, n):
        """sizes are unchanged"""
        for off, v in self.own[n][3].items():
            self.eq(st, self.field(st, n, off, 'P' if isinstance(v, Ptr) else 'I'), v, 'number of sets, end and storage are unchanged')
    def frame(self, st, n, t, only=None):
        """words of every other set are unchanged; only: the one word of set t that may change (None: any)"""
        N, end, p, f = self.own[n]; j, q = P(fresh('j', 'I')), P(fresh('q', 'I'))
        for c in (lt(j, t), gt(j, t)):
            s2 = st.fork(c, ge(j, 0), lt(j, N), ge(q, 0), lt(q, p))
            if self.pr.feasible(s2.pc): self.eq(s2, self.w(s2, n, j, q), self.w0(n, j, q), 'no other set changes')
        if only is not None:
            s2 = st.fork(ge(q, 0), lt(q, p), Not(eq(q, only)))
            if self.pr.feasible(s2.pc): self.eq(s2, self.w(s2, n, t, q), self.w0(n, t, q), 'no other word changes')
REL = {'=': None, '<': lt, '>': gt}
def related(v, name, t, rel, n):
    """an index with the given relation to t"""
    if rel == '=': return t
    i = v.idx(name, n); v.assume(REL[rel](i, t)); return i
def run(M, op, one, rel=''):
    v = S(M, 'pack_setvec %s%s%s' % (op, ', end = 1' if one else '', ' ' + rel if rel else '')); K = v.K; B = Bits()
    if op in ('add', 'post', 'is'):
        s = v.packed('s', one, const=op == 'is'); i = v.idx('i', 's'); e, q, r = v.elem('s'); k = P(fresh('k', 'I'))
        if one: v.assume(le(v.w0('s', i, ZERO), 1))
        facts = [z3.ULT(B.poly(k), 64)] + ([z3.ULT(B.poly(r), 64)] if r.cval() is None else []) + ([z3.ULE(B.poly(v.w0('s', i, ZERO)), 1)] if one else [])
        for st, ret in v.call('w_' + op, [s, i, e]):
            if op == 'is':
                n = v.name('membership'); c = ret if isinstance(ret, Cond) else i2b(ret)
                if not B.prove(B.cond(c) == B.bit(v.w0('s', i, q), r), facts): raise ObligationFailed(n, str(ret))
                continue
            v.shape(st, 's'); got = v.w(st, 's', i, q); old = v.w0('s', i, q)
            n = v.name('the element is in the set')
            if not B.prove(B.bit(got, r), facts): raise ObligationFailed(n, str(got))
            n = v.name('no other element is added or removed')
            if not B.prove(z3.Implies(B.poly(k) != B.poly(r), B.bit(got, k) == B.bit(old, k)), facts): raise ObligationFailed(n, str(got))
            v.frame(st, 's', i, q)
    elif op == 'clear':
        s = v.packed('s', one); t = v.idx('t', 's')
        for st, ret in v.call('w_clear', [s, t]):
            v.shape(st, 's'); v.frame(st, 's', t); q = P(fresh('q', 'I')); s2 = st.fork(ge(q, 0), lt(q, v.own['s'][2]))
            v.eq(s2, v.w(s2, 's', t, q), ZERO, 'the set is empty')
    elif op in ('assign', 'union', 'inter'):
        same = rel.endswith('same'); s = v.packed('s', one); o = s if same else v.packed('o', one, const=True)
        if not same and not one: v.assume(eq(v.own['s'][1], v.own['o'][1]))
        t = v.idx('t', 's'); on = 's' if same else 'o'
        if op == 'assign': r = related(v, 'r', t, rel[0], 's') if same else v.idx('r', 'o'); args = [s, t, r, o]
        else:
            l = related(v, 'l', t, rel[0], 's'); r = related(v, 'r', t, rel[1], 's') if same else v.idx('r', 'o')
            args = [s, t, l, r, o]
        for st, ret in v.call('w_' + op, args):
            v.shape(st, 's'); v.frame(st, 's', t)
            if not same: v.shape(st, 'o')
            q = P(fresh('q', 'I')) if not one else ZERO; s2 = st.fork(ge(q, 0), lt(q, v.own['s'][2])); got = v.w(s2, 's', t, q)
            if op == 'assign': v.eq(s2, got, v.w0(on, r, q), 'the set is a copy of the value')
            else:
                x, y = v.w0('s', l, q), v.w0(on, r, q); n = v.name('the set is the %s of the operands' % ('union' if op == 'union' else 'intersection'))
                if got is UNDEF or not B.prove(B.poly(got) == (B.poly(x) | B.poly(y) if op == 'union' else B.poly(x) & B.poly(y))): raise ObligationFailed(n, str(got))
    elif op == 'resize':
        s = v.packed('s', one, empty=rel == 'empty'); n = P(var('n')); v.assume(ge(n, 1))
        P2 = P(var('p2')); r = P(var('r2')); v.assume(ge(P2, 1), ge(r, 1), le(r, 64)); v.pr.scales.append(P2); v.pr.scales.append(n); end = 64 * (P2 - 1) + r
        v.assume(ge(n * P2, 1))
        for st, ret in v.call('w_resize', [s, n, end]):
            v.eq(st, v.fld(st, 's', 'nset'), n, 'number of sets'); v.eq(st, v.fld(st, 's', 'end'), end, 'end'); v.eq(st, v.fld(st, 's', 'npack'), P2, 'words per set')
            v.eq(st, v.field(st, 's', K['data'] + K['pv_size']), n * P2, 'number of words')
            w = P(fresh('w', 'I')); s2 = st.fork(ge(w, 0), lt(w, n * P2)); v.eq(s2, v.read(s2, v.data(s2, 's'), w * 8, 8, 'I'), ZERO, 'every set is empty')
    elif op in ('copy', 'swap'):
        s = v.packed('s', one, empty=rel == 'empty'); o = v.packed('o', one, const=op == 'copy', p=P(var('po'))); v.assume(ge(P(var('po')), 1)); v.pr.scales.append(P(var('po')))
        for st, ret in v.call('w_' + op, [s, o]):
            for k in ('nset', 'end', 'npack'): v.eq(st, v.fld(st, 's', k), v.own['o'][3][K[k]], 'sizes of the first are those of the second at entry')
            w = P(fresh('w', 'I')); po = v.own['o'][2]
            s2 = st.fork(ge(w, 0), lt(w, v.own['o'][0] * po)); v.eq(s2, v.read(s2, v.data(s2, 's'), w * 8, 8, 'I'), sel('o.data', w * 8, 'I', 8), 'elements of the first are those of the second at entry')
            if op == 'copy': v.shape(st, 'o'); v.true(v.data(st, 's') != v.data(st, 'o'), 'storage is not shared')
            else:
                for k in ('nset', 'end', 'npack'): v.eq(st, v.fld(st, 'o', k), v.own['s'][3][K[k]], 'sizes of the second are those of the first at entry')
                v.eq(st, v.data(st, 'o'), v.own['s'][3][K['data'] + K['pv_data']], 'storage of the second is that of the first at entry')
    elif op in ('nset', 'end'):
        s = v.packed('s', one, const=True)
        for st, ret in v.call('w_' + op, [s]): v.eq(st, ret, v.own['s'][0 if op == 'nset' else 1], op)
    elif op == 'count':
        # end = 1 only: the word itself
        s = v.packed('s', one, const=True); i = v.idx('i', 's'); v.assume(le(v.w0('s', i, ZERO), 1))
        for st, ret in v.call('w_count', [s, i]): v.eq(st, ret, v.w0('s', i, ZERO), 'number of elements')
    else: raise Unsupported(op)
    return v.done()
def tasks():
    out = []
    for one in (False, True):
        for op in ('add', 'post', 'is', 'clear', 'nset', 'end'): out.append((op, one, ''))
        for r in ('= same', '< same', '> same', 'other'): out.append(('assign', one, r))
        for op in ('union', 'inter'):
            for a in '=<>':
                out.append((op, one, a + ' other'))
                for b in '=<>': out.append((op, one, a + b + ' same'))
        for op in ('copy', 'swap', 'resize'):
            for r in ('', 'empty'): out.append((op, one, r))
    out.append(('count', True, ''))
    return out
if __name__ == '__main__':
    import sys, time
    M = load()
    for t in tasks():
        if len(sys.argv) > 1 and t[0] not in sys.argv[1:]: continue
        t0 = time.time()
        try: print('OK', t, len(run(M, *t)), '%.1f' % (time.time() - t0))
        except (ObligationFailed, Unsupported) as e: print('FAIL', t, type(e).__name__, str(e)[:700], '%.1f' % (time.time() - t0))
