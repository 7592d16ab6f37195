"""C15: contracts of the vector containers: CppAD::vector, pod_vector, pod_vector_maybe, vectorBool.

Representation invariant: length <= capacity; a positive capacity owns one block of the allocator that holds capacity elements.
Abstract value: the sequence of elements.  Every operation is executed from an arbitrary state satisfying the invariant."""
from terms import *
from symex import *
from fn import *
import build
CLASSES = {'vec': ('CppAD::vector<double>', 'length_', 'capacity_'), 'pod': ('pod_vector<double>', 'size_', 'capacity_'), 'may': ('pod_vector_maybe<double>', 'length_', 'capacity_')}
def driver():
    s = '''#include <cppad/cppad.hpp>
#include <cstddef>
#include <new>
using namespace CppAD; using namespace CppAD::local;
extern "C" {
long K_vb_len = offsetof(vectorBool, length_), K_vb_cap = offsetof(vectorBool, n_unit_), K_vb_data = offsetof(vectorBool, data_);
long K_bits = vectorBool::bit_per_unit_;
'''
    for c, (t, l, p) in CLASSES.items():
        s += 'typedef %s T_%s;\n' % (t, c)
        s += 'long K_%s_len = offsetof(T_%s, %s), K_%s_cap = offsetof(T_%s, %s), K_%s_data = offsetof(T_%s, data_);\n' % (c, c, l, c, c, p, c, c)
        s += '''void w_{c}_resize(T_{c}& v, size_t n) {{ v.resize(n); }}
void w_{c}_push(T_{c}& v, const double& e) {{ v.push_back(e); }}
void w_{c}_clear(T_{c}& v) {{ v.clear(); }}
void w_{c}_assign(T_{c}& v, const T_{c}& w) {{ v = w; }}
void w_{c}_swap(T_{c}& v, T_{c}& w) {{ v.swap(w); }}
void w_{c}_dtor(T_{c}& v) {{ v.~T_{c}(); }}
void w_{c}_ctorn(T_{c}* v, size_t n) {{ new(v) T_{c}(n); }}
void w_{c}_ctor0(T_{c}* v) {{ new(v) T_{c}(); }}
size_t w_{c}_size(T_{c}& v) {{ return v.size(); }}
size_t w_{c}_capacity(T_{c}& v) {{ return v.capacity(); }}
double w_{c}_get(const T_{c}& v, size_t i) {{ return v[i]; }}
void w_{c}_set(T_{c}& v, size_t i, double e) {{ v[i] = e; }}
'''.format(c=c)
        if c != 'vec': s += 'size_t w_%s_extend(T_%s& v, size_t n) { return v.extend(n); }\n' % (c, c)
    s += '''
void w_vec_copy(T_vec* v, const T_vec& w) { new(v) T_vec(w); }
void w_vec_movector(T_vec* v, T_vec& w) { new(v) T_vec(std::move(w)); }
void w_vec_move(T_vec& v, T_vec& w) { v = std::move(w); }
void w_vec_fill(T_vec* v, size_t n, const double& e) { new(v) T_vec(n, e); }
bool w_vec_eq(const T_vec& v, const T_vec& w) { return v == w; }
bool w_vec_ne(const T_vec& v, const T_vec& w) { return v != w; }
bool w_vec_lt(const T_vec& v, const T_vec& w) { return v < w; }
bool w_vec_le(const T_vec& v, const T_vec& w) { return v <= w; }
bool w_vec_gt(const T_vec& v, const T_vec& w) { return v > w; }
bool w_vec_ge(const T_vec& v, const T_vec& w) { return v >= w; }
void w_vec_pushv(T_vec& v, const T_vec& w) { v.push_vector(w); }
void w_vb_resize(vectorBool& v, size_t n) { v.resize(n); }
void w_vb_clear(vectorBool& v) { v.clear(); }
void w_vb_push(vectorBool& v, bool e) { v.push_back(e); }
void w_vb_copy(vectorBool* v, const vectorBool& w) { new(v) vectorBool(w); }
void w_vb_assign(vectorBool& v, const vectorBool& w) { v = w; }
void w_vb_swap(vectorBool& v, vectorBool& w) { v.swap(w); }
void w_vb_move(vectorBool& v, vectorBool& w) { v = std::move(w); }
void w_vb_dtor(vectorBool& v) { v.~vectorBool(); }
bool w_vb_get(const vectorBool& v, size_t i) { return v[i]; }
void w_vb_set(vectorBool& v, size_t i, bool e) { v[i] = e; }
bool w_vb_getn(vectorBool& v, size_t i) { return bool(v[i]); }
void w_vb_copyel(vectorBool& v, size_t i, vectorBool& w, size_t j) { v[i] = w[j]; }
size_t w_vb_size(const vectorBool& v) { return v.size(); }
}
'''
    return s
def load(): return build.ir(driver(), 'vectors', extra=['-fno-access-control'])
class V(Fn):
    def __init__(self, M, c, label):
        Fn.__init__(self, M, label); self.c = c; K = self.K
        self.o = {x: K['%s_%s' % (c, x)] for x in ('len', 'cap', 'data')}
        self.unit = K['bits'] if c == 'vb' else 1
        self.sort = 'I' if c == 'vb' else 'R'
        self.E.block_sort = self.sort; self.E.block_any = c == 'vb'
        self.own = {}
    def fresh(self, n):
        """storage of an object that is not constructed yet"""
        self.st.mem[n] = Obj(n, 'uninit', (), None, {}); return Ptr(n, 0)
    def vec(self, n, empty=False, const=False):
        if empty: f = {self.o['len']: ZERO, self.o['cap']: ZERO, self.o['data']: NULL}
        else:
            cap = P(var(n + '.cap')); L = P(var(n + '.len'))
            if self.unit > 1:
                q, r = P(var(n + '.q')), P(var(n + '.r')); L = self.unit * q + r; self.assume(ge(q, 0), ge(r, 0), lt(r, self.unit))
            self.assume(ge(cap, 1), ge(L, 0), le(L, cap * self.unit))
            f = {self.o['len']: L, self.o['cap']: cap, self.o['data']: self.block(n + '.data', 8, self.sort, cap * 8, const)}
        self.own[n] = f
        return self.obj(n, f, const)
    def f(self, st, n, k): return self.field(st, n, self.o[k], 'P' if k == 'data' else 'I')
    def L0(self, n): return self.own[n][self.o['len']]
    def C0(self, n): return self.own[n][self.o['cap']]
    def el0(self, n, J):
        return sel(n + '.data', J * 8, self.sort, 8)
    def el(self, st, n, J): return self.read(st, self.f(st, n, 'data'), J * 8, 8, self.sort)
    def inv(self, st, names):
        """representation invariant of all containers, no block shared, none lost"""
        used = []
        for n in names:
            L, C = self.f(st, n, 'len'), self.f(st, n, 'cap')
            if not isinstance(L, Poly) or not isinstance(C, Poly): raise ObligationFailed(self.name('fields of %s are set' % n))
            self.holds(st, And(le(L, C * self.unit), ge(L, 0)), 'invariant: length within the capacity (%s)' % n)
            if self.pr.prove(st.pc, eq(C, 0)): continue
            d = self.f(st, n, 'data')
            self.true(isinstance(d, Ptr) and d.obj in st.ghost['live'] and d.off.cval() == 0, 'invariant: %s owns a block' % n, '%s on %s' % (d, self.path(st)))
            sz = st.mem[d.obj].size
            self.holds(st, le(C * 8, P(sz)), 'invariant: the block holds the capacity (%s)' % n)
            used.append(d.obj)
        self.true(len(set(used)) == len(used), 'no block is owned by two vectors', str(used))
        live = {x for x in st.ghost['live']}
        extra = live - set(used)
        self.true(not extra, 'every block that is not owned any more is returned to the allocator', str(sorted(extra)))
    def keeps(self, st, n, src, lo, hi, shift=ZERO, what='elements'):
        """elements lo <= J < hi of n are the elements J - shift of src at entry"""
        J = P(fresh('J', 'I')); s2 = st.fork(ge(J, lo), lt(J, hi))
        if not self.pr.feasible(s2.pc): self.name(what); return
        self.eq(s2, self.el(s2, n, J), self.el0(src, J - shift), what)
    def same(self, st, n):
        for k in ('len', 'cap', 'data'): self.eq(st, self.f(st, n, k), self.own[n][self.o[k]], '%s is unchanged' % n)
        if self.own[n][self.o['cap']] != ZERO: self.keeps(st, n, n, ZERO, self.L0(n), what='elements of %s are unchanged' % n)
def mx(a, b): return ite(ge(a, b), a, b)
KEEP_GROW = {'vec': True, 'pod': False, 'may': False, 'vb': False}
def nmin(v, st, a, b):
    if v.pr.prove(st.pc, le(a, b)): return a
    if v.pr.prove(st.pc, le(b, a)): return b
    return ite(le(a, b), a, b)
def words(v, L):
    """number of words that hold L bits"""
    return L
def run(M, c, op, empty):
    v = V(M, c, '%s %s%s' % ({'vec': 'vector', 'pod': 'pod_vector', 'may': 'pod_vector_maybe', 'vb': 'vectorBool'}[c], op, ' (no storage yet)' if empty else ''))
    E = v.E; W = 'w_%s_' % c
    n = P(var('n')); v.assume(ge(n, 0))
    if v.unit > 1:
        nq, nr = P(var('nq')), P(var('nr')); v.assume(ge(nq, 0), ge(nr, 0), lt(nr, 64)); n = 64 * nq + nr
    if op in ('resize', 'ctorn'):
        a = v.fresh('a') if op == 'ctorn' else v.vec('a', empty)
        for st, r in v.call(W + op, [a, n]):
            v.eq(st, v.f(st, 'a', 'len'), n, 'size is as requested'); v.inv(st, ['a'])
            if op == 'resize' and not empty:
                grown = not v.pr.prove(st.pc, le(n, v.C0('a') * v.unit))
                v.holds(st, ge(v.f(st, 'a', 'cap'), v.C0('a')), 'capacity does not shrink')
                if not grown:
                    v.eq(st, v.f(st, 'a', 'data'), Ptr('a.data', 0), 'storage is kept when the capacity suffices')
                    v.eq(st, v.f(st, 'a', 'cap'), v.C0('a'), 'capacity is kept when it suffices')
                if not grown or KEEP_GROW[c]:
                    hi = nmin(v, st, n, v.L0('a'))
                    if v.unit > 1: bits_keep(v, st, 'a', 'a', hi)
                    else: v.keeps(st, 'a', 'a', ZERO, hi, what='elements are preserved')
    elif op == 'ctor0':
        a = v.fresh('a')
        for st, r in v.call(W + op, [a]): v.eq(st, v.f(st, 'a', 'len'), 0, 'size zero'); v.eq(st, v.f(st, 'a', 'cap'), 0, 'capacity zero'); v.inv(st, ['a'])
    elif op == 'extend':
        a = v.vec('a', empty); L = v.L0('a')
        for st, r in v.call(W + op, [a, n]):
            v.eq(st, r, L, 'returns the old size'); v.eq(st, v.f(st, 'a', 'len'), L + n, 'size'); v.inv(st, ['a'])
            if not empty: v.keeps(st, 'a', 'a', ZERO, L, what='elements are preserved')
    elif op in ('push', 'push own'):
        a = v.vec('a', empty); L = v.L0('a')
        if op == 'push own':
            k = P(var('k')); v.assume(ge(k, 0), lt(k, L)); e = Ptr('a.data', k * 8); ev = v.el0('a', k)
        else:
            e = v.plain('e', 8, 'R', const=True); ev = sel('e', ZERO, 'R', 8)
        for st, r in v.call(W + 'push', [a, e]):
            v.eq(st, v.f(st, 'a', 'len'), L + 1, 'size'); v.inv(st, ['a'])
            v.eq(st, v.el(st, 'a', L), ev, 'the new last element')
            if not empty: v.keeps(st, 'a', 'a', ZERO, L, what='elements are preserved')
    elif op == 'pushv':
        a = v.vec('a', empty); b = v.vec('b', False, const=True); L = v.L0('a'); m = v.L0('b')
        E.contracts = dict(E.contracts); E.contracts[r'CheckSimpleVector'] = lambda E, st, a, i, d: [(st, None)]
        for st, r in v.call(W + op, [a, b]):
            v.eq(st, v.f(st, 'a', 'len'), L + m, 'size'); v.inv(st, ['a', 'b'])
            v.keeps(st, 'a', 'b', L, L + m, L, 'the appended elements')
            if not empty: v.keeps(st, 'a', 'a', ZERO, L, what='elements are preserved')
            v.same(st, 'b')
    elif op in ('clear', 'dtor'):
        a = v.vec('a', empty)
        for st, r in v.call(W + op, [a]):
            if op == 'clear':
                v.eq(st, v.f(st, 'a', 'len'), 0, 'size zero'); v.eq(st, v.f(st, 'a', 'cap'), 0, 'capacity zero'); v.inv(st, ['a'])
            else: v.inv(st, [])
    elif op in ('assign', 'copy', 'assign self'):
        me = op == 'assign self'
        a = v.fresh('a') if op == 'copy' else v.vec('a', empty)
        b = a if me else v.vec('b', False, const=True)
        B = 'a' if me else 'b'
        if c == 'vb' and op == 'assign' and not empty: v.assume(eq(v.L0('a'), v.L0('b')))
        for st, r in v.call(W + ('assign' if me else op), [a, b]):
            v.eq(st, v.f(st, 'a', 'len'), v.L0(B), 'size'); v.inv(st, ['a'] if me else ['a', 'b'])
            if c == 'vb': bits_keep(v, st, 'a', B, v.L0(B))
            else: v.keeps(st, 'a', B, ZERO, v.L0(B), what='elements are copied')
            if not me: v.same(st, 'b')
    elif op in ('swap', 'move', 'movector', 'swap self'):
        a = v.fresh('a') if op == 'movector' else v.vec('a', empty); b = v.vec('b', False) if op != 'swap self' else a
        for st, r in v.call(W + ('swap' if op == 'swap self' else op), [a, b]):
            if op == 'swap self': v.same(st, 'a'); v.inv(st, ['a']); continue
            for k in ('len', 'cap', 'data'): v.eq(st, v.f(st, 'a', k), v.own['b'][v.o[k]], 'the first vector is the second one at entry')
            if op == 'swap':
                for k in ('len', 'cap', 'data'): v.eq(st, v.f(st, 'b', k), v.own['a'][v.o[k]], 'the second vector is the first one at entry')
            v.inv(st, ['a', 'b'])
            for x in ('a', 'b'):
                ob = st.mem.get(x + '.data')
                if ob is not None: v.true(not ob.upds, 'no element is written', x)
    elif op in ('size', 'capacity'):
        a = v.vec('a', empty)
        for st, r in v.call(W + op, [a]): v.eq(st, r, v.L0('a') if op == 'size' else v.C0('a'), op); v.same(st, 'a')
    elif op in ('get', 'set'):
        a = v.vec('a'); i = P(var('i')); v.assume(ge(i, 0), lt(i, v.L0('a'))); x = P(var('x', 'R'))
        for st, r in v.call(W + op, [a, i] + ([x] if op == 'set' else [])):
            v.eq(st, v.f(st, 'a', 'len'), v.L0('a'), 'size'); v.inv(st, ['a'])
            J = P(fresh('J', 'I'))
            if op == 'get': v.eq(st, r, v.el0('a', i), 'the element'); v.same(st, 'a')
            else:
                v.eq(st, v.el(st, 'a', i), x, 'the element'); s2 = st.fork(ge(J, 0), lt(J, v.L0('a')), Not(eq(J, i)))
                v.eq(s2, v.el(s2, 'a', J), v.el0('a', J), 'no other element changes')
    elif op == 'fill':
        a = v.fresh('a'); e = v.plain('e', 8, 'R', const=True)
        for st, r in v.call(W + op, [a, n, e]):
            v.eq(st, v.f(st, 'a', 'len'), n, 'size'); v.inv(st, ['a'])
            J = P(fresh('J', 'I')); s2 = st.fork(ge(J, 0), lt(J, n))
            if v.pr.feasible(s2.pc): v.eq(s2, v.el(s2, 'a', J), sel('e', ZERO, 'R', 8), 'every element has the value')
    elif op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        a = v.vec('a', False, True); b = v.vec('b', False, True); v.assume(eq(v.L0('a'), v.L0('b')))
        f = {'eq': lambda d: eq0(d, 'R'), 'ne': lambda d: Not(eq0(d, 'R')), 'lt': lambda d: lt0(d, 'R'), 'le': lambda d: le0(d, 'R'), 'gt': lambda d: lt0(-d, 'R'), 'ge': lambda d: le0(-d, 'R')}[op]
        for st, r in v.call(W + op, [a, b]):
            r = r if isinstance(r, Cond) else i2b(r)
            J = P(fresh('J', 'I')); s2 = st.fork(ge(J, 0), lt(J, v.L0('a')), r)
            d = v.el0('a', J) - v.el0('b', J)
            v.holds(s2, f(d), 'true only when it holds for every element', (J,))
            q = fresh('q', 'I'); allc = forall(q, ZERO, v.L0('a') - 1, f(v.el0('a', P(q)) - v.el0('b', P(q))))
            v.holds(st.fork(allc), r, 'true when it holds for every element')
    else: raise Unsupported(op)
    return v.done()
# ---------------------------------------------------------------- bits
def word(v, st, n, w): return v.el(st, n, w)
def bits_keep(v, st, n, src, hi, what='bits are preserved'):
    """the words that hold bits 0 .. hi - 1 are those of src at entry"""
    w = P(fresh('w', 'I')); s2 = st.fork(ge(w, 0), le(64 * w + 1, hi))
    if not v.pr.feasible(s2.pc): v.name(what); return
    v.eq(s2, v.el(s2, n, w), v.el0(src, w), what)
def run_bits(M, op, empty=False):
    v = V(M, 'vb', 'vectorBool ' + op + (' (no storage yet)' if empty else ''))
    B = Bits(); W = 'w_vb_'
    facts = lambda *rs: [z3.ULT(B.poly(r), 64) for r in rs]
    e = fresh_bool('e')
    def idx(s, vn):
        q, r = P(var(s + 'q')), P(var(s + 'r')); v.assume(ge(q, 0), ge(r, 0), lt(r, 64), lt(64 * q + r, v.L0(vn))); return 64 * q + r, q, r
    def changed(st, n, q, r, val, extra, L):
        """bit r of word q has the value val, every other bit below L is unchanged"""
        got = v.el(st, n, q); k = P(fresh('k', 'I'))
        v.name('the bit has the new value'); v.name('no other bit changes')
        if not B.prove(B.bit(got, r) == val, facts(r) + extra): raise ObligationFailed(v.log[-2], '%s on %s' % (got, v.path(st)))
        old = v.el0(n, q) if not empty else None
        if old is not None and not B.prove(B.bit(got, k) == B.bit(old, k), facts(r, k) + extra + [B.poly(k) != B.poly(r)]):
            # bits of the word at or above the length may be anything
            raise ObligationFailed(v.log[-1], '%s on %s' % (got, v.path(st)))
        w = P(fresh('w', 'I')); s2 = st.fork(ge(w, 0), le(64 * w + 1, L), Not(eq(w, q)))
        if v.pr.feasible(s2.pc): v.eq(s2, v.el(s2, n, w), v.el0(n, w), 'no other word changes')
    if op in ('get', 'getn'):
        a = v.vec('a'); i, q, r = idx('i', 'a')
        for st, ret in v.call(W + op, [a, i]):
            v.same_bits = None; v.name('value of the bit')
            c = ret if isinstance(ret, Cond) else i2b(ret)
            if not B.prove(B.cond(c) == B.bit(v.el0('a', q), r), facts(r)): raise ObligationFailed(v.log[-1], str(ret))
            v.same(st, 'a')
    elif op == 'set':
        a = v.vec('a'); i, q, r = idx('i', 'a')
        for st, ret in v.call(W + op, [a, i, e]):
            v.eq(st, v.f(st, 'a', 'len'), v.L0('a'), 'size'); v.inv(st, ['a'])
            changed(st, 'a', q, r, z3.Bool('b%d' % e.a[0].id), [B.cond(c) for c in st.pc if c in (e, Not(e))], v.L0('a'))
    elif op == 'copyel':
        a = v.vec('a'); b = v.vec('b'); i, q, r = idx('i', 'a'); j, q2, r2 = idx('j', 'b')
        for st, ret in v.call(W + op, [a, i, b, j]):
            v.inv(st, ['a', 'b']); v.same(st, 'b')
            ex = facts(r2)
            for c in st.pc:
                try: ex.append(B.cond(c))
                except Unsupported: pass
            changed(st, 'a', q, r, B.bit(v.el0('b', q2), r2), ex, v.L0('a'))
    elif op == 'push':
        a = v.vec('a', empty); L = v.L0('a'); q, r = (P(var('a.q')), P(var('a.r'))) if not empty else (ZERO, ZERO)
        for st, ret in v.call(W + op, [a, e]):
            v.eq(st, v.f(st, 'a', 'len'), L + 1, 'size'); v.inv(st, ['a'])
            got = v.el(st, 'a', q); ex = [B.cond(c) for c in st.pc if c in (e, Not(e))]
            v.name('the new last bit')
            if not B.prove(B.bit(got, r) == z3.Bool('b%d' % e.a[0].id), facts(r) + ex): raise ObligationFailed(v.log[-1], '%s on %s' % (got, v.path(st)))
            if not empty:
                v.name('bits are preserved'); k = P(fresh('k', 'I'))
                if v.pr.feasible(st.pc + (ge(r, 1),)) and not B.prove(B.bit(got, k) == B.bit(v.el0('a', q), k), facts(r, k) + ex + [z3.ULT(B.poly(k), B.poly(r))]): raise ObligationFailed(v.log[-1], '%s on %s' % (got, v.path(st)))
                w = P(fresh('w', 'I')); s2 = st.fork(ge(w, 0), lt(w, q))
                if v.pr.feasible(s2.pc): v.eq(s2, v.el(s2, 'a', w), v.el0('a', w), 'bits are preserved')
    return v.done()
def tasks():
    out = []
    for c in ('vec', 'pod', 'may'):
        for op in ('resize', 'push', 'clear', 'dtor', 'assign', 'swap', 'size', 'capacity') + (('extend',) if c != 'vec' else ('move', 'pushv')):
            for empty in (False, True): out.append((c, op, empty))
        for op in ('ctorn', 'ctor0', 'get', 'set', 'assign self', 'swap self'): out.append((c, op, False))
    for op in ('copy', 'movector', 'fill', 'push own', 'eq', 'ne', 'lt', 'le', 'gt', 'ge'): out.append(('vec', op, False))
    for op in ('resize', 'clear', 'dtor', 'assign', 'swap', 'move'):
        for empty in (False, True): out.append(('vb', op, empty))
    for op in ('copy', 'assign self', 'swap self', 'size'): out.append(('vb', op, False))
    bits = [('get', False), ('getn', False), ('set', False), ('copyel', False), ('push', False), ('push', True)]
    return out, bits
if __name__ == '__main__':
    import sys, time
    M = load(); t1, t2 = tasks()
    for t in t1:
        if len(sys.argv) > 1 and t[0] not in sys.argv[1:] and t[1] not in sys.argv[1:]: continue
        t0 = time.time()
        try: print('OK', t, len(run(M, *t)), '%.1f' % (time.time() - t0))
        except (ObligationFailed, Unsupported) as e: print('FAIL', t, type(e).__name__, str(e)[:600], '%.1f' % (time.time() - t0))
    for t in t2:
        t0 = time.time()
        try: print('OK', t, len(run_bits(M, *t)), '%.1f' % (time.time() - t0))
        except (ObligationFailed, Unsupported) as e: print('FAIL', t, type(e).__name__, str(e)[:600], '%.1f' % (time.time() - t0))
