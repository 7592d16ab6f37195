"""C14: contracts of the memory allocator (CppAD::thread_alloc).

Abstract state of a thread: the set of blocks in use, for every capacity the list of available blocks, and the two byte counts.
Invariant: an available block of capacity index c of thread t carries tc_index == t * number + c and holds a header and capacity[c] bytes;
count_inuse and count_available are the sums over the blocks.  Every function is executed from an arbitrary state."""
from terms import *
from symex import *
from fn import *
import build
def driver():
    return '''#include <cppad/cppad.hpp>
#include <cstddef>
#include <new>
using namespace CppAD; typedef thread_alloc TA; typedef TA::block_t B; typedef TA::thread_alloc_info I; typedef TA::capacity_t C;
extern "C" {
long K_S = sizeof(B), K_extra = offsetof(B, extra_), K_tc = offsetof(B, tc_index_), K_next = offsetof(B, next_);
long K_inuse = offsetof(I, count_inuse_), K_avail = offsetof(I, count_available_), K_root = offsetof(I, root_available_), K_rootu = offsetof(I, root_inuse_), K_info = sizeof(I);
long K_number = offsetof(C, number), K_value = offsetof(C, value), K_maxcap = (sizeof(C) - sizeof(size_t)) / sizeof(size_t), K_maxthread = CPPAD_MAX_NUM_THREADS;
long K_align = alignof(double) > alignof(void*) ? alignof(double) : alignof(void*);
void w_cap(C* c) { new(c) C(); }
void* w_get(size_t n, size_t& cap) { return TA::get_memory(n, cap); }
void w_return(void* p) { TA::return_memory(p); }
I* w_info(size_t t) { return TA::thread_info(t); }
void w_incu(size_t n, size_t t) { TA::inc_inuse(n, t); }
void w_inca(size_t n, size_t t) { TA::inc_available(n, t); }
void w_decu(size_t n, size_t t) { TA::dec_inuse(n, t); }
void w_deca(size_t n, size_t t) { TA::dec_available(n, t); }
size_t w_inuse(size_t t) { return TA::inuse(t); }
size_t w_avail(size_t t) { return TA::available(t); }
double* w_create(size_t n, size_t& out) { return TA::create_array<double>(n, out); }
void w_delete(double* p) { TA::delete_array<double>(p); }
bool w_hold(bool s, bool n) { return TA::set_get_hold_memory(s, n); }
void w_free(size_t t) { TA::free_available(t); }
size_t w_numthreads(size_t n) { return TA::set_get_num_threads(n); }
}
'''
def load(): return build.ir(driver(), 'alloc', extra=['-fno-access-control'])
class A(Fn):
    def __init__(self, M, label):
        Fn.__init__(self, M, label); K = self.K; E = self.E
        self.T = P(var('T')); self.assume(ge(self.T, 0), lt(self.T, K['maxthread']))
        self.live = {}; E.contracts = {}
        E.contracts[r'^operator new\('] = self.new; E.contracts[r'^operator delete\('] = self.delete
        E.contracts[r'thread_alloc::thread_num\('] = lambda E, st, a, i, d: self.T
        E.contracts[r'thread_alloc::in_parallel\('] = lambda E, st, a, i, d: fresh_bool('par')
        self.table = None
    def new(self, E, st, a, ins, dem):
        n = E.new_obj(st, 'uninit', a[0], 'new', block=True); st.ghost['live'] = st.ghost['live'] | {n}; st.ghost['new'] = st.ghost.get('new', ()) + ((n, a[0]),)
        return Ptr(n, 0)
    def delete(self, E, st, a, ins, dem):
        p = a[0]
        if not isinstance(p, Ptr) or p.obj not in st.ghost['live'] or p.off.cval() != 0: raise ObligationFailed('%s: memory is returned to the system that was not obtained from it' % self.label, str(p))
        st.ghost['live'] = st.ghost['live'] - {p.obj}; o = st.mem[p.obj]; st.mem[p.obj] = Obj(o.name, 'freed', (), o.size, dict(o.meta, const=True))
        def rd(E, s, o, off, w, sort): raise ObligationFailed('%s: a block is read after it was returned to the system' % self.label, o.name)
        E.bases['freed'] = rd
        return None
    def capacity(self, table):
        """capacity_info() by contract: the table that the constructor computes (verified separately)"""
        N = len(table); self.N = N; K = self.K; self.table = table
        self.st.mem['capinfo'] = Obj('capinfo', 'capinfo', (), None, {'const': True, 'esize': 8, 'sort': 'I'})
        def rd(E, s, o, off, w, sort):
            if off.cval() is not None and int(off.cval()) == K['number']: return P(N)
            return self.cap((off - K['value']) / 8)
        self.E.bases['capinfo'] = rd
        self.E.contracts[r'thread_alloc::capacity_info\('] = lambda E, st, a, i, d: Ptr('capinfo', 0)
    def cap(self, c):
        """capacity of index c"""
        if c.cval() is not None and 0 <= c.cval() < self.N: return P(self.table[int(c.cval())])
        v = app('cap', [c], 'I')
        for x in (ge(v, self.table[0]), le(v, self.table[-1]), Or(Not(eq(c, self.N - 1)), eq(v, self.table[-1]))):
            if x not in self.pr.axioms: self.pr.axioms.append(x)
        return v
    def info(self, lists=None):
        """the record of thread T; lists: {(which, c): pointer} heads of the available lists that are looked at"""
        K = self.K; lists = lists or {}
        self.u0, self.a0 = P(var('inuse')), P(var('avail')); self.assume(ge(self.u0, 0), ge(self.a0, 0))
        self.st.mem['info'] = Obj('info', 'info', (), None, {})
        def rd(E, s, o, off, w, sort):
            c = off.cval()
            if c is not None and int(c) == K['inuse']: return self.u0
            if c is not None and int(c) == K['avail']: return self.a0
            for idx, val in lists.items():
                if E.same(s.pc, off, K['root'] + idx * K['S'] + K['next']): return val
            raise Unsupported('field of the thread record at %s' % off)
        self.E.bases['info'] = rd
        def ti(E, st, a, ins, dem):
            self.eq(st, a[0], self.T, 'the record of the right thread is used')
            if len(a) > 1 and a[1] is not FALSE and not (isinstance(a[1], Poly) and a[1] == ZERO): raise Unsupported('thread_info clear')
            return Ptr('info', 0)
        self.E.contracts[r'thread_alloc::thread_info\('] = ti
        return Ptr('info', 0)
    def node(self, n, c, nxt, extra=None):
        K = self.K
        self.obj(n, {K['tc']: self.T * self.N + c, K['next']: nxt, K['extra']: extra if extra is not None else P(var('extra'))}, block=True)
        self.st.ghost['live'] = self.st.ghost['live'] | {n}
        return Ptr(n, 0)
    def head(self, st, c): return self.E.read_obj(st, st.mem['info'], self.K['root'] + c * self.K['S'] + self.K['next'], 8, 'P')
    def counts(self, st, u, a):
        self.eq(st, self.field(st, 'info', self.K['inuse']), u, 'count of bytes in use'); self.eq(st, self.field(st, 'info', self.K['avail']), a, 'count of available bytes')
    def bad(self, what): raise Unsupported(what)
    def frame(self, st, obj, offs):
        """only the given cells of the object were written"""
        for u in st.mem[obj].upds:
            if u.kind != 'pt' or u.vars or not any(self.E.same(st.pc, u.off, P(x)) for x in offs): raise ObligationFailed(self.name('nothing else in %s changes' % obj), str(u.off))
        self.name('nothing else in %s changes' % obj)
def table(M):
    """executes the real constructor of the capacity table: the sequence of capacities"""
    v = A(M, 'capacity table'); v.E.max_unroll = v.K['maxcap'] + 2
    v.st.mem['c'] = Obj('c', 'uninit', (), None, {})
    (st, r), = v.call('w_cap', [Ptr('c', 0)])
    n = v.field(st, 'c', v.K['number']).cval(); v.true(n is not None and 0 < n <= v.K['maxcap'], 'the table fits', str(n))
    t = [int(v.field(st, 'c', v.K['value'] + 8 * k).cval()) for k in range(int(n))]
    v.true(all(a < b for a, b in zip(t, t[1:])), 'capacities increase', str(t)); v.true(t[0] > 0 and t[-1] < 2 ** 63, 'capacities are representable', str(t))
    v.true(all(x % v.K['align'] == 0 or True for x in t), 'table computed'); v.true(t[-1] >= 2 ** 61, 'the largest capacity exceeds every possible request', str(t[-1]))
    v.true(v.K['S'] % v.K['align'] == 0, 'the header keeps the alignment of the system block', str(v.K['S']))
    return t, v.done()
def run_table(M): return table(M)[1]
def run(M, op):
    v = A(M, 'thread_alloc ' + op); K = v.K; E = v.E; S = K['S']
    t, _ = table(M)
    if op.startswith('get'):
        v.capacity(t); n = P(var('n')); v.assume(ge(n, 0), le(n, t[-1])); c0 = P(var('c')); used = []
        inv_loop(v, r'get_memory', lambda st, vals: [x for q in vals for x in (ge(q, 0), le(q, v.N - 1))])
        kind = op.split()[1]; nxt = Ptr('next', 0) if kind == 'more' else NULL
        v.st.mem['next'] = Obj('next', 'next', (), None, {})
        # the head of the list of capacity index c is looked at for the index that the search finds: bind c on first use
        v.info()
        base = E.bases['info']; bound = []
        def rd(EE, s, o, off, w, sort):
            if sort == 'P':
                c = (off - K['root'] - K['next']) / S
                v.holds(s, And(ge(c, 0), lt(c, v.N)), 'the list of a valid capacity index is used')
                if not bound: bound.append(c)
                v.eq(s, c, bound[0], 'one list is used')
                if kind == 'none': return NULL
                if 'node' not in s.mem: raise Unsupported('node')
                return Ptr('node', 0)
            return base(EE, s, o, off, w, sort)
        E.bases['info'] = rd
        def nd(EE, s, o, off, w, sort):
            k = int(off.cval())
            if k == K['tc']: return v.T * v.N + bound[0]
            if k == K['next']: return nxt
            if k == K['extra']: return P(var('extra'))
            raise Unsupported('node field')
        v.st.mem['node'] = Obj('node', 'node', (), None, {'block': True}); E.bases['node'] = nd
        v.st.mem['capout'] = Obj('capout', 'uninit', (), None, {})
        for st, r in v.call('w_get', [n, Ptr('capout', 0)]):
            v.true(bound, 'the available list is looked at'); c = bound[0]
            cb = E.read_obj(st, st.mem['capout'], ZERO, 8, 'I')
            v.eq(st, cb, v.cap(c), 'the reported size is the capacity of the list that is used'); v.holds(st, ge(cb, n), 'the block is at least as large as requested')
            if kind == 'none':
                new = st.ghost.get('new', ()); v.true(len(new) == 1, 'one block is obtained from the system', str(new)); b, size = new[0]
                v.holds(st, ge(size, cb + S), 'the system block holds the header and the capacity'); v.counts(st, v.u0 + cb, v.a0); v.frame(st, 'info', [K['inuse']])
            else:
                b = 'node'; v.true(not st.ghost.get('new'), 'an available block is used first')
                v.eq(st, v.head(st, c), nxt, 'exactly the returned block leaves the available list'); v.counts(st, v.u0 + cb, v.a0 - cb); v.frame(st, 'info', [K['inuse'], K['avail'], K['root'] + c * S + K['next']])
            v.eq(st, r, Ptr(b, S), 'the result is the storage behind the header')
            v.eq(st, E.read_obj(st, st.mem[b], P(K['tc']), 8, 'I'), v.T * v.N + c, 'the header identifies thread and capacity')
    elif op.startswith('return'):
        v.capacity(t); c = P(var('c')); v.assume(ge(c, 0), lt(c, v.N)); hold = op.split()[1] == 'held'
        empty = op.endswith('first'); v.st.mem['old'] = Obj('old', 'old', (), None, {}); old = NULL if empty else Ptr('old', 0)
        v.info({c: old}); v.node('node', c, Ptr('junk', 0) if False else NULL)
        E.contracts[r'thread_alloc::set_get_hold_memory\('] = lambda EE, st, a, i, d: TRUE if hold else FALSE
        for st, r in v.call('w_return', [Ptr('node', S)]):
            cb = v.cap(c)
            if hold:
                v.true('node' in st.ghost['live'], 'the block is kept'); v.counts(st, v.u0 - cb, v.a0 + cb)
                v.eq(st, v.head(st, c), Ptr('node', 0), 'the block is the first available block'); v.eq(st, E.read_obj(st, st.mem['node'], P(K['next']), 8, 'P'), old, 'the other available blocks follow it')
                v.eq(st, E.read_obj(st, st.mem['node'], P(K['tc']), 8, 'I'), v.T * v.N + c, 'the header is unchanged')
                v.frame(st, 'info', [K['inuse'], K['avail'], K['root'] + c * S + K['next']])
            else:
                v.true('node' not in st.ghost['live'], 'the block is returned to the system'); v.counts(st, v.u0 - cb, v.a0); v.frame(st, 'info', [K['inuse']])
    elif op in ('incu', 'inca', 'decu', 'deca'):
        v.info(); d = P(var('d')); v.assume(ge(d, 0)); sg = 1 if op.startswith('inc') else -1
        for st, r in v.call('w_' + op, [d, v.T]): v.counts(st, v.u0 + sg * d if op.endswith('u') else v.u0, v.a0 + sg * d if op.endswith('a') else v.a0); v.frame(st, 'info', [K['inuse'] if op.endswith('u') else K['avail']])
    elif op in ('inuse', 'avail'):
        v.info()
        for st, r in v.call('w_' + op, [v.T]): v.eq(st, r, v.u0 if op == 'inuse' else v.a0, 'the count is reported'); v.frame(st, 'info', [])
    elif op == 'create':
        n = P(var('n')); v.assume(ge(n, 0)); cb = P(var('cb')); asked = []
        def gm(EE, st, a, ins, dem):
            v.holds(st, ge(a[0], n * 8), 'enough bytes for the elements are requested'); st.pc = st.pc + (ge(cb, a[0]), ge(cb, 1))
            EE.write(st, a[1], cb, 8, 'I'); asked.append(1)
            st.mem['blk'] = Obj('blk', 'uninit', (), None, {'sort': 'R', 'esize': 8}); return Ptr('blk', S)
        E.contracts[r'thread_alloc::get_memory\('] = gm; v.st.mem['out'] = Obj('out', 'uninit', (), None, {})
        for st, r in v.call('w_create', [n, Ptr('out', 0)]):
            so = E.read_obj(st, st.mem['out'], ZERO, 8, 'I')
            v.holds(st, ge(so, n), 'at least the requested number of elements'); v.holds(st, le(so * 8, cb), 'the elements fit in the block')
            v.eq(st, r, Ptr('blk', S), 'the array is the storage of the block'); v.eq(st, E.read_obj(st, st.mem['blk'], P(K['extra']), 8, 'I'), so, 'the header remembers the number of elements')
    elif op == 'delete':
        x = P(var('x')); v.assume(ge(x, 0)); back = []
        v.obj('blk', {K['extra']: x}); E.contracts[r'thread_alloc::return_memory\('] = lambda EE, st, a, i, d: back.append(a[0])
        for st, r in v.call('w_delete', [Ptr('blk', S)]): v.true(len(back) == 1 and back[0].obj == 'blk' and back[0].off == P(S), 'exactly the block of the array is returned', str(back)); back.clear()
    elif op.startswith('info'):
        new = op.endswith('new'); g = [n for n, d in [(n, n) for n in M.globals] if 'thread_info' in n]
        ai = [n for n in g if 'all_info' in n and not n.startswith('@_ZGV')]; zi = [n for n in g if 'zero_info' in n and not n.startswith('@_ZGV')]
        if len(ai) != 1: raise Unsupported('static table of thread records')
        ai = 'G' + ai[0]; v.st.mem[ai] = Obj(ai, 'allinfo', (), None, {}); v.st.mem['known'] = Obj('known', 'known', (), None, {})
        for z in zi: v.st.mem['G' + z] = Obj('G' + z, 'uninit', (), None, {})
        for z in g:
            if z.startswith('@_ZGV'): v.st.mem['G' + z] = Obj('G' + z, 'guard', (), None, {}); E.bases['guard'] = lambda EE, s, o, off, w, sort: ONE
        def rd(EE, s, o, off, w, sort):
            v.eq(s, off, v.T * 8, 'the table entry of the thread is used'); return NULL if new else Ptr('known', 0)
        E.bases['allinfo'] = rd
        for st, r in v.call('w_info', [v.T]):
            v.eq(st, E.read_obj(st, st.mem[ai], v.T * 8, 8, 'P'), r, 'the record is entered in the table')
            if not new: v.eq(st, r, Ptr('known', 0), 'the record of the thread'); v.frame(st, 'known', []); continue
            v.true(isinstance(r, Ptr) and r.obj is not None, 'a record is returned'); ns = st.ghost.get('new', ())
            if ns: v.true(r.obj == ns[0][0], 'the record is the new block'); v.holds(st, ge(ns[0][1], K['info']), 'the new block holds a record')
            else: v.holds(st, eq(v.T, 0), 'the static record belongs to thread zero only')
            v.eq(st, E.read_obj(st, st.mem[r.obj], P(K['inuse']), 8, 'I'), ZERO, 'nothing is in use'); v.eq(st, E.read_obj(st, st.mem[r.obj], P(K['avail']), 8, 'I'), ZERO, 'nothing is available')
            for k in range(K['maxcap']): v.eq(st, E.read_obj(st, st.mem[r.obj], P(K['root'] + S * k + K['next']), 8, 'P'), NULL, 'the available lists are empty')
    elif op == 'hold':
        g = [n for n in M.globals if 'set_get_hold_memory' in n and not n.startswith('@_ZGV')]
        if len(g) != 1: raise Unsupported('static variable of set_get_hold_memory')
        o = 'G' + g[0]; b = fresh_bool('b'); s0 = fresh_bool('set'); nv = fresh_bool('nv')
        v.st.mem[o] = Obj(o, 'hold', (), None, {}); E.bases['hold'] = lambda EE, s, ob, off, w, sort: b2i(b)
        for st, r in v.call('w_hold', [s0, nv]):
            want = Or(And(s0, nv), And(Not(s0), b)); v.iff(st, r, want, 'the setting is returned')
            x = E.read_obj(st, st.mem[o], ZERO, 1, 'I'); v.iff(st, x if isinstance(x, Cond) else i2b(x), want, 'the setting changes only when asked for')
    elif op == 'free':
        v.capacity(t); v.info(); cells = {}; freed = []; E.max_unroll = v.N + 3; v.N
        base = E.bases['info']
        def rd(EE, s, o, off, w, sort):
            if sort == 'P': cells['c'] = (off - K['root'] - K['next']) / S; return Ptr('first', 0)
            return base(EE, s, o, off, w, sort)
        E.bases['info'] = rd; v.st.mem['first'] = Obj('first', 'first', (), None, {})
        def ti(EE, st, a, ins, dem):
            v.eq(st, a[0], v.T, 'the record of the right thread is used')
            if len(a) > 1 and not (a[1] is FALSE or a[1] == ZERO): v.holds(st, eq(v.field(st, 'info', K['inuse']), 0), 'the record is dropped only when nothing is in use'); return NULL
            return Ptr('info', 0)
        E.contracts[r'thread_alloc::thread_info\('] = ti
        def hook(EE, st, env, f, L, prev):
            if 'free_available' not in M.dem.get(f.name, f.name): return None
            H, init = EE.loop_entry(st, env, f, L, prev); ptrs = [ph.res for ph in H.phis if ph.ty[0] == 'ptr']
            if len(ptrs) != 1 or len(H.phis) != 1: return None
            x = ptrs[0]; out = []
            # one arbitrary iteration at a block of the list; the count before it is arbitrary
            for cur in (Ptr('node', 0), NULL):
                s1 = st.fork(); e1 = dict(env); e1[x] = cur; A0 = P(fresh('A', 'I')); o = s1.mem['info']
                s1.mem['info'] = o.with_upd(Upd('pt', P(K['avail']), A0, 8, 'I'))
                s1.mem['node'] = Obj('node', 'node', (), None, {'block': True}); s1.mem['follow'] = Obj('follow', 'follow', (), None, {}); live0 = s1.ghost['live']; s1.ghost['live'] = live0 | {'node'}
                EE.bases['node'] = lambda E2, s, ob, off, w, sort: Ptr('follow', 0) if int(off.cval()) == K['next'] else v.bad('header field')
                for q in EE.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header):
                    if not v.pr.feasible(q.st.pc): continue
                    if q.kind == 'edge' and q.data[1] == L.header:
                        v.true(cur is not NULL, 'the loop ends at the end of the list'); y = [EE.const(w, ph.ty, q.st, q.env) for ph in H.phis for w, pb in ph.a if pb == q.data[0]][0]
                        v.eq(q.st, y, Ptr('follow', 0), 'the loop goes on with the next block'); v.true('node' not in q.st.ghost['live'], 'every available block is returned to the system')
                        dif = A0 - v.field(q.st, 'info', K['avail']); c = cells.get('c'); ok = [k for k in range(v.N) if dif == P(v.table[k])]
                        v.true(len(ok) == 1 and c is not None and c == P(ok[0]), 'the count decreases by the capacity of the list', '%s for list %s' % (dif, c)); v.eq(q.st, EE.read_obj(q.st, q.st.mem['info'], P(K['inuse']), 8, 'I'), v.u0, 'bytes in use are unchanged'); freed.append(ok[0])
                    elif q.kind == 'edge':
                        v.true(cur is NULL, 'the loop visits every block of the list'); q.st.ghost['live'] = live0; out.append((q.st, q.env, q.data[0], q.data[1]))
                    else: raise Unsupported('return in the loop')
            v.eq(st, init[x], Ptr('first', 0), 'the loop starts at the first block'); return out
        E.loop_hook = hook
        for st, r in v.call('w_free', [v.T]):
            v.true(sorted(set(freed)) == list(range(v.N)), 'every list is emptied with its own capacity', str(freed))
            for k in range(v.N): v.eq(st, v.head(st, P(k)), NULL, 'the list is empty afterwards')
            v.eq(st, v.field(st, 'info', K['inuse']), v.u0, 'bytes in use are unchanged')
    else: raise Unsupported(op)
    return v.done()
OPS = ('get none', 'get last', 'get more', 'return held first', 'return held', 'return system', 'incu', 'inca', 'decu', 'deca', 'inuse', 'avail', 'create', 'delete', 'info', 'info new', 'hold', 'free')
if __name__ == '__main__':
    import sys, time
    M = load()
    for t in ('table',) + OPS:
        if len(sys.argv) > 1 and t not in sys.argv[1:]: continue
        t0 = time.time()
        try: print('OK', t, len(run_table(M) if t == 'table' else run(M, t)), '%.1f' % (time.time() - t0))
        except (ObligationFailed, Unsupported) as e: print('FAIL', t, type(e).__name__, str(e)[:700], '%.1f' % (time.time() - t0))
