"""Contracts of the recording of VecAD loads and stores (C13): the recorder functions are used by contract."""
from terms import *
from symex import *
from fn import *
import build, special
def driver():
    return '''#include <cppad/cppad.hpp>
#include <cstddef>
using namespace CppAD; using namespace CppAD::local; typedef AD<double> A; typedef VecAD<double> V; typedef pod_vector<addr_t> VA; typedef pod_vector_maybe<double> VM;
extern "C" {
long K_value = offsetof(A, value_), K_id = offsetof(A, tape_id_), K_addr = offsetof(A, taddr_), K_type = offsetof(A, ad_type_), K_tid = offsetof(ADTape<double>, id_);
long K_sid = sizeof(tape_id_t), K_saddr = sizeof(addr_t), K_stype = sizeof(ad_type_enum);
long K_constant = constant_enum, K_dynamic = dynamic_enum, K_variable = variable_enum;
long K_vlen = offsetof(V, length_), K_vid = offsetof(V, tape_id_), K_voff = offsetof(V, offset_), K_vtype = offsetof(V, ad_type_);
long K_vdata = offsetof(V, data_) + offsetof(VM, data_), K_vdsize = offsetof(V, data_) + offsetof(VM, length_), K_vtaddr = offsetof(V, taddr_) + offsetof(VA, data_), K_vtsize = offsetof(V, taddr_) + offsetof(VA, size_);
long K_pvsize = offsetof(VA, size_), K_pvdata = offsetof(VA, data_);
void w_load(A* r, V& v, const A& i) { *r = v[i]; }
void w_store(V& v, const A& i, const A& x) { v[i] = x; }
void w_store_d(V& v, const A& i, double x) { v[i] = x; }
}
'''
def load(): return build.ir(driver(), 'vecrec', extra=['-fno-access-control'])
class R(Fn):
    def __init__(self, M, label):
        Fn.__init__(self, M, label); K = self.K; self.tid = P(var('T')); self.assume(ge(self.tid, 1))
        def tape_ptr(E, st, a, ins, dem):
            out = []
            for s, r in E.decide(st, bvar('have_tape')):
                if not r: out.append((s, NULL)); continue
                if 'tape' not in s.mem: s.mem['tape'] = Obj('tape', 'TAPE', (Upd('pt', P(K['tid']), self.tid, K['sid'], 'I'),), None, {'const': True})
                out.append((s, Ptr('tape', 0)))
            return out
        def put_con(E, st, a, ins, dem): return [(st, app('conidx', [E.num(E.load(st, a[1], ('fp', 'double')))], 'I'))]
        def put_vec(E, st, a, ins, dem):
            i = P(fresh('i', 'I')); s2 = st.fork(ge(i, 0), lt(i, P(var('len'))))
            n = self.name('the vector is put on the tape with its current elements')
            if 'vec' in st.ghost: raise ObligationFailed(n, 'it is put twice')
            if not E.same(st.pc, E.num(a[1]), P(var('len'))): raise ObligationFailed(n, 'length %s' % a[1])
            d = self.read(st, a[2], K['pvdata'], 8, 'P'); got = self.read(s2, d, i * K['saddr'], K['saddr'], 'I')
            s3 = s2.fork(Not(eq(i, self.x)))
            if self.pr.feasible(s3.pc): self.eq(s3, self.read(s3, d, i * K['saddr'], K['saddr'], 'I'), app('conidx', [sel('data', i * 8, 'R', 8)], 'I'), 'the vector is put on the tape with its current elements')
            if not self.is_store:
                s3 = s2.fork(eq(i, self.x))
                if self.pr.feasible(s3.pc): self.eq(s3, self.read(s3, d, i * K['saddr'], K['saddr'], 'I'), app('conidx', [sel('data', i * 8, 'R', 8)], 'I'), 'the vector is put on the tape with its current elements')
            st.ghost['vec'] = True
            return [(st, P(var('newoff')))]
        def put_arg(E, st, a, ins, dem): st.ghost['args'] = st.ghost.get('args', ()) + tuple(E.num(x) for x in a[1:]); return [(st, None)]
        def put_op(E, st, a, ins, dem): st.ghost['ops'] = st.ghost.get('ops', ()) + (E.num(a[1]),); return [(st, None)]
        def put_load(E, st, a, ins, dem): st.ghost['ops'] = st.ghost.get('ops', ()) + (E.num(a[1]),); return [(st, P(var('newvar')))]
        def num_load(E, st, a, ins, dem): return [(st, P(var('nload')) + sum(1 for o in st.ghost.get('ops', ()) if o in (P(special.ops()['LdvOp']), P(special.ops()['LdpOp']))))]
        self.E.contracts.update({r'CppAD::AD<double>::tape_ptr\(': tape_ptr, r'recorder<double>::put_con_par\(': put_con, r'recorder<double>::put_var_vecad\(': put_vec, r'recorder<double>::PutArg\(': put_arg,
            r'recorder<double>::PutOp\(': put_op, r'recorder<double>::PutLoadOp\(': put_load, r'recorder<double>::num_var_load\(': num_load})
        self.assume(ge(P(var('newoff')), 0), ge(P(var('nload')), 0))
    def ad(self, n, kind, const=True):
        K = self.K; val = P(var(n + '.value', 'R')); ad = P(var(n + '.taddr')); self.assume(ge(ad, 0))
        if kind == 'con': i, t = P(var(n + '.id')), P(var(n + '.type')); self.assume(ge(i, 0), Or(lt(i, self.tid), gt(i, self.tid)), Or(eq(t, K['constant']), eq(t, K['dynamic']), eq(t, K['variable'])))
        else: i, t = self.tid, P(K['dynamic' if kind == 'dyn' else 'variable'])
        f = {K['value']: val, K['id']: i, K['addr']: ad, K['type']: t}
        self.st.mem[n] = Obj(n, 'AD' + n, tuple(Upd('pt', P(o), f[o], w, 'R' if o == K['value'] else 'I') for o, w in ((K['value'], 8), (K['id'], K['sid']), (K['addr'], K['saddr']), (K['type'], K['stype']))), None, {'const': const}); setattr(self, n, (val, i, ad, t)); return Ptr(n, 0)
    def vec(self, on):
        K = self.K; L = P(var('len')); self.assume(ge(L, 1)); self.plain('data', 8, 'R'); self.plain('taddr', K['saddr'], 'I')
        if on: i, t = self.tid, P(K['variable'])
        else: i, t = P(var('v.id')), P(var('v.type')); self.assume(ge(i, 0), Or(lt(i, self.tid), gt(i, self.tid)), Or(eq(t, K['constant']), eq(t, K['variable'])))
        off = P(var('v.off')); self.assume(ge(off, 1))
        self.v0 = {K['vid']: i, K['vtype']: t, K['voff']: off}
        f = dict(self.v0); f.update({K['vlen']: L, K['vdata']: Ptr('data', 0), K['vdsize']: L, K['vtaddr']: Ptr('taddr', 0), K['vtsize']: L})
        return self.obj('v', f)
def run(M, op, on, ki, kx):
    v = R(M, 'VecAD %s, vector %s, index %s%s' % ('load' if op == 'load' else 'store', 'on the tape' if on else 'not on the tape', ki, ', value ' + kx if kx else '')); K = v.K
    V = v.vec(on); I = v.ad('i', ki); v.x = x = special.trunc(v.i[0]); v.assume(ge(x, 0), lt(x, P(var('len')))); v.is_store = op != 'load'
    O = special.ops()
    if op == 'load': v.st.mem['r'] = Obj('r', 'uninit', (), None, {}); outs = v.call('w_load', [Ptr('r', 0), V, I])
    elif kx == 'double': val = P(var('x', 'R')); outs = v.call('w_store_d', [V, I, val])
    else: X = v.ad('y', kx); val = v.y[0]; outs = v.call('w_store', [V, I, X])
    seen = set()
    for st, ret in outs:
        tape = v.pr.prove(st.pc, bvar('have_tape')); none = v.pr.prove(st.pc, Not(bvar('have_tape')))
        if not (tape or none): tape = False
        var_x = kx == 'var'; con_x = kx in ('con', 'double', None)
        rec = tape and (on or ki != 'con' or not con_x); seen.add(rec)
        if none is False and tape is False: rec = False
        ops, args = st.ghost.get('ops', ()), st.ghost.get('args', ())
        # elements
        k = P(fresh('k', 'I')); s2 = st.fork(ge(k, 0), lt(k, P(var('len'))))
        if op == 'load': v.eq(s2, v.read(s2, Ptr('data', 0), k * 8, 8, 'R'), sel('data', k * 8, 'R', 8), 'elements are not modified')
        else:
            v.eq(st, v.read(st, Ptr('data', 0), x * 8, 8, 'R'), val, 'the element has the value that is stored')
            for c in (lt(k, x), gt(k, x)):
                s3 = s2.fork(c)
                if v.pr.feasible(s3.pc): v.eq(s3, v.read(s3, Ptr('data', 0), k * 8, 8, 'R'), sel('data', k * 8, 'R', 8), 'no other element is modified')
        if op == 'load': v.eq(st, v.read(st, Ptr('r', 0), K['value'], 8, 'R'), sel('data', x * 8, 'R', 8), 'the result has the value of the element')
        fields = {f: v.field(st, 'v', f, 'I', K['sid'] if f == K['vid'] else K['saddr'] if f == K['voff'] else K['stype']) for f in v.v0}
        if not rec:
            v.true(not ops and not args and 'vec' not in st.ghost, 'nothing is recorded when no operand is part of the recording', str((ops, args)))
            for f, w in v.v0.items(): v.eq(st, fields[f], w, 'the vector is not part of the recording')
            if op == 'load':
                t = v.read(st, Ptr('r', 0), K['type'], K['stype'], 'I'); i = v.read(st, Ptr('r', 0), K['id'], K['sid'], 'I')
                v.holds(st, Or(eq(t, K['constant']), eq(i, 0)), 'the result is a constant')
            continue
        v.true(('vec' in st.ghost) == (not on), 'the vector is put on the tape when and only when it is not there')
        off = v.v0[K['voff']] if on else P(var('newoff')) + 1
        v.eq(st, fields[K['voff']], off, 'the offset of the vector'); v.eq(st, fields[K['vid']], v.tid, 'the vector is part of the recording'); v.eq(st, fields[K['vtype']], P(K['variable']), 'the vector is a variable')
        v.true(len(ops) == 1 and len(args) == 3, 'one operator with three arguments is recorded', str((ops, args)))
        idx = app('conidx', [v.i[0]], 'I') if ki == 'con' else v.i[2]
        if op == 'load': code = 'LdvOp' if ki == 'var' else 'LdpOp'; want = [off, idx, P(var('nload'))]
        else:
            code = 'St' + ('v' if ki == 'var' else 'p') + ('v' if var_x else 'p') + 'Op'
            want = [off, idx, app('conidx', [val], 'I') if con_x else v.y[2]]
        v.eq(st, ops[0], P(O[code]), 'the operator agrees with the kinds of the operands')
        for k, (g, w) in enumerate(zip(args, want)): v.eq(st, g, w, 'argument %d of the operator' % k)
        if op == 'load':
            v.eq(st, v.read(st, Ptr('r', 0), K['type'], K['stype'], 'I'), P(K['variable']), 'the result is a variable of the recording')
            v.eq(st, v.read(st, Ptr('r', 0), K['id'], K['sid'], 'I'), v.tid, 'the result is a variable of the recording')
            v.eq(st, v.read(st, Ptr('r', 0), K['addr'], K['saddr'], 'I'), P(var('newvar')), 'the result is the variable of the load operator')
    v.true(True in seen or (not on and ki == 'con' and kx in (None, 'con', 'double')), 'the recording case is reached')
    return v.done()
def tasks():
    out = []
    for on in (False, True):
        for ki in ('con', 'dyn', 'var'):
            out.append(('load', on, ki, None))
            for kx in ('con', 'dyn', 'var', 'double'): out.append(('store', on, ki, kx))
    return out
def add(ctx):
    M = ctx.module_of(load, 'vecrec')
    if M is not None:
        for t in tasks(): ctx.task('recording of VecAD %s' % ' '.join(str(x) for x in t), run, M, *t)
if __name__ == '__main__':
    import sys, time
    M = load()
    for t in tasks():
        t0 = time.time()
        try: print('OK', t, len(run(M, *t)), '%.1f' % (time.time() - t0))
        except (ObligationFailed, Unsupported) as e: print('FAIL', t, type(e).__name__, str(e)[:900], '%.1f' % (time.time() - t0))
