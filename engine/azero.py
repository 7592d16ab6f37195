"""Absolute zero contracts (C11). Taylor coefficients and parameters are arbitrary floating point values, infinities and nan
included: arithmetic on them is arbitrary again, also when multiplied by zero. Only azmul with a zero left operand and the
values that the contract states to be numbers are exempt. When the partials of the results are zero, nothing may change."""
from varop import *
import record
NANV = var('any', 'R'); NAN = P(NANV)
def tainted(*xs): return any(isinstance(x, Poly) and has(x) for x in xs)
def has(x, seen=None):
    for a in x.atoms():
        if a == NANV or ATOMS[a].id == getattr(NANV, 'id', NANV): return True
        for y in ATOMS[a].args if ATOMS[a].args else ():
            if isinstance(y, Poly) and has(y): return True
    return False
class TaintEngine(Engine):
    def step(self, st, env, ins, f):
        op = ins.op; C = self.const; a = ins.a
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x = C(a[0], ins.ty, st, env); y = C(a[1], ins.ty, st, env)
            if x is UNDEF or y is UNDEF: env[ins.res] = UNDEF; return
            if tainted(x, y): env[ins.res] = NAN; return
            if op == 'fdiv' and not self.pr.prove(st.pc, Not(eq0(self.num(y), 'R'))): env[ins.res] = NAN; return
        elif op == 'fneg':
            if tainted(C(a[0], ins.ty, st, env)): env[ins.res] = NAN; return
        elif op == 'fcmp':
            x = C(a[1], ins.ty, st, env); y = C(a[2], ins.ty, st, env)
            if tainted(x, y): env[ins.res] = bvar('c%s' % fresh('c', 'I')); return
        return Engine.step(self, st, env, ins, f)
    def builtin(self, st, name, a, ins):
        if name[1:] in self.MATH and tainted(*a): return [(st, NAN)]
        return Engine.builtin(self, st, name, a, ins)
    def intrinsic(self, st, env, ins, name, a):
        if name[6:].split('.')[0] in self.MATH | {'fmuladd', 'fma', 'maxnum', 'minnum'} and tainted(*a): env[ins.res] = NAN; return None
        return Engine.intrinsic(self, st, env, ins, name, a)
    def _ite(self, c, x, y):
        if c is TRUE: return x
        if c is FALSE: return y
        if tainted(x, y): return NAN
        return Engine._ite(self, c, x, y)
def azmul(E, st, a, ins, dem):
    x = E.num(E.load(st, a[0], ('fp', 'double'))); y = E.num(E.load(st, a[1], ('fp', 'double')))
    if not x.d: return ZERO
    if tainted(x): return NAN
    if tainted(y):
        if E.pr.prove(st.pc, eq0(x, 'R')): return ZERO
        return NAN
    return x * y
def anyvalue(E, s, o, off, w, sort): return NAN if sort == 'R' else sel(o.base, off, sort, w)
class Outcome_:
    def __init__(self, st): self.st = st
class Az(OpCheck):
    engine = TaintEngine; hv = 0; explore = False
    def null_hook(self, E, st, env, f, L, prev):
        """a loop that leaves the partials as they are: every write of one arbitrary iteration stores what is there"""
        names = [n for n in ('partial', 'workdata') if n in st.mem]; self.induct_objs = set(names); pr = self.pr; pre = {n: st.mem[n] for n in names}
        if not re.match(r'P\d*$', pre['partial'].base): return None
        E.loop_depth += 1
        try: g = self.generic_loop(E, st, env, f, L, prev, True)
        finally: E.loop_depth -= 1
        if g is None: return None
        t, form, used, T, backs, s0 = g
        N, side = T; N = P(N)
        if side is not None and not pr.prove(st.pc, side):
            if pr.prove(st.pc, Not(side)): N = ZERO
            else:
                res = []
                for c in (side, Not(side)):
                    s2 = st.fork(c)
                    if pr.feasible(s2.pc): res += self.null_hook(E, s2, env, f, L, prev) or E.loop_default(s2, env, f, L, prev)
                return res
        for o in backs if not self.explore else ():
            pc = o.st.pc + (lt(P(t), N),)
            if not pr.feasible(pc): continue
            for nm in names:
                for u in o.st.mem[nm].upds:
                    if u in pre[nm].upds: continue
                    pq = pc + tuple(c for v, n in u.vars for c in (ge(P(v), 0), lt(P(v), n))) + ((u.guard,) if u.guard is not TRUE else ())
                    if not pr.feasible(pq): continue
                    if u.kind == 'acc': d = u.val
                    else:
                        d = E.read_obj(State(pq, o.st.mem), pre[nm], u.off, 8, 'R')
                        d = u.val - d if isinstance(d, Poly) and isinstance(u.val, Poly) else NAN
                    if tainted(d):
                        if nm == 'workdata': return None
                        self.fail(self.name, 'an indeterminate value (zero times an arbitrary value) is added to a partial: %s at %s on %s' % (u.val, u.off, pq))
                    if d.d and not Norm(pr).is_zero(d, pq): return None
        st2 = s0.fork(); e3 = dict(env); sub = {t.id: N}
        for ph in f.blocks[L.header].phis:
            v = form[ph.res]; e3[ph.res] = Ptr(v.obj, subst(v.off, sub)) if isinstance(v, Ptr) else subst(v, sub)
        c = subst(Not(used), sub)
        if c is not TRUE: st2 = st2.fork(c)
        ret = []
        for o in E.run(st2, e3, f, L.header, prev, L.body, skip_loop=L.header):
            if o.kind == 'ret': ret.append((o.st, o.env, o.data, None)); continue
            if o.data[1] == L.header:
                if pr.feasible(o.st.pc): self.fail('loop exit')
                continue
            ret.append((o.st, o.env, o.data[0], o.data[1]))
        return ret
    def noop(self, E, states, pre, t, N):
        """every new write stores what is there -> True / False, or a description when an indeterminate value is stored"""
        for o in states:
            pc = o.st.pc + ((lt(P(t), N),) if t is not None else ())
            if not self.pr.feasible(pc): continue
            for nm in pre:
                for u in o.st.mem[nm].upds:
                    if u in pre[nm].upds: continue
                    pq = pc + tuple(c for v, n in u.vars for c in (ge(P(v), 0), lt(P(v), n))) + ((u.guard,) if u.guard is not TRUE else ())
                    if not self.pr.feasible(pq): continue
                    if u.kind == 'acc': d = u.val
                    else:
                        d = E.read_obj(State(pq, o.st.mem), pre[nm], u.off, 8, 'R')
                        d = u.val - d if isinstance(d, Poly) and isinstance(u.val, Poly) else NAN
                    if tainted(d): return 'an indeterminate value (zero times an arbitrary value) is stored at %s' % (u.off,)
                    if d.d and not Norm(self.pr).is_zero(d, pq): return 'the change at %s is %s' % (u.off, d)
        return None
    def order_hook(self, E, st, env, f, L, prev):
        """one arbitrary iteration of a loop over the orders contributes nothing when the partials of its order are zero"""
        if E.loop_depth > 0: return self.null_hook(E, st, env, f, L, prev)
        pr = self.pr; names = [n for n in ('partial', 'workdata') if n in st.mem]; self.induct_objs = set(names)
        E.loop_depth += 1
        try:
            self.explore = True
            try: g = self.generic_loop(E, st, env, f, L, prev, True)
            finally: self.explore = False
            if g is not None:
                t, form, used, T, backs, s0 = g; N, side = T; N = P(N)
                inside = (lt(P(t), N),) + ((side,) if side is not None else ())
                cands = [P(t), self.n - 1 - P(t)]
                for ph in f.blocks[L.header].phis:
                    v = form[ph.res]
                    if isinstance(v, Ptr): continue
                    cc = coeff(v, t)
                    if cc is None or cc[0].cval() not in (1, -1): continue
                    for dlt in (0, -1, 1):
                        if v + dlt not in cands: cands.append(v + dlt)
                why = ''; found = False
                for v in cands:
                    if not pr.prove(st.pc + inside + (ge(P(t), 0),), And(ge(v, 0), lt(v, self.n))): continue
                    for low in (False, True):
                        self.hv += 1
                        ups = tuple(Upd('pt', (self.rowidx[r] * self.n + v) * 8, ZERO, 8, 'R') for r in self.zrows)
                        if low: ups += tuple(Upd('pt', (self.rowidx[r] * self.n + v - 1) * 8, ZERO, 8, 'R') for r in self.zrows[1:])
                        s1 = s0.fork(ge(P(t), 0), *inside); e1 = dict(env)
                        s1.mem['partial'] = Obj('partial', 'P%d' % self.hv, ups, None, st.mem['partial'].meta)
                        if 'workdata' in names: s1.mem['workdata'] = Obj('workdata', 'W%d' % self.hv, (), None, st.mem['workdata'].meta)
                        for ph in f.blocks[L.header].phis: e1[ph.res] = form[ph.res]
                        if not pr.feasible(s1.pc): found = True; break
                        try: outs = [o for o in E.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header) if o.kind == 'edge' and o.data[1] == L.header]
                        except ObligationFailed as e: why = why or str(e); continue
                        w = self.noop(E, outs, {n: s1.mem[n] for n in names}, None, None)
                        if w is None: found = True; break
                        why = why or w
                    if found: break
                if not found:
                    # the loop does not go over the orders of the result: it must contribute nothing as it is
                    E.loop_depth -= 1
                    try: r = self.null_hook(E, st, env, f, L, prev)
                    finally: E.loop_depth += 1
                    if r is not None: return r
                    if all(o.st.mem['partial'] is st.mem['partial'] for o in backs): g = None
                    else: self.fail(self.name, 'loop %s: %s' % (L.header, why))
        finally: E.loop_depth -= 1
        if g is None: return self.null_hook(E, st, env, f, L, prev)
        w = self.noop(E, [Outcome_(st)], st.ghost['mark'], None, None)
        if w is not None: self.fail(self.name, 'before a loop: %s' % w)
        self.nloops += 1
        st2 = s0.fork(); self.hv += 1
        if side is not None and not pr.prove(st.pc, side): N = ite(side, N, 0)
        st2.mem['partial'] = Obj('partial', 'P%d' % self.hv, self.zero_cells(), None, st.mem['partial'].meta)
        if 'workdata' in names: st2.mem['workdata'] = Obj('workdata', 'W%d' % self.hv, (), None, st.mem['workdata'].meta)
        st2.ghost['mark'] = {n: st2.mem[n] for n in names}
        e3 = dict(env)
        for ph in f.blocks[L.header].phis:
            v = form[ph.res]; e3[ph.res] = Ptr(v.obj, subst(v.off, {t.id: N})) if isinstance(v, Ptr) else subst(v, {t.id: N})
        c = subst(Not(used), {t.id: N})
        if c is not TRUE: st2 = st2.fork(c)
        ret = []
        for o in E.run(st2, e3, f, L.header, prev, L.body, skip_loop=L.header):
            if o.kind == 'ret': ret.append((o.st, o.env, o.data, None)); continue
            if o.data[1] == L.header:
                if pr.feasible(o.st.pc): self.fail('loop exit')
                continue
            ret.append((o.st, o.env, o.data[0], o.data[1]))
        return ret
    def zero_cells(self): return tuple(Upd('pt', self.rowidx[r] * self.n * 8, ZERO, 8, 'R') for r in self.zrows)
    def run(self, mode='all'):
        op = self.op; E, pr, ax, st = self.common(False)
        E.contracts = {r'^(?:double )?CppAD::azmul\(': azmul}
        self.n = n = P(var('n_order')); cap = self.cap
        ax += [ge(n, 1), le(n, cap)]; pr.scales = [cap, n]; pr.axioms = ax
        st.mem['taylor'] = Obj('taylor', 'T', (), None, {'const': True, 'esize': 8, 'sort': 'R'})
        E.bases['T'] = anyvalue; E.bases['PAR'] = anyvalue
        ups = ()
        if mode == 'order': ups = self.zero_cells(); self.nloops = 0
        else:
          for row in self.zrows:
            v = fresh('v', 'I'); ups += (Upd('pt', (self.rowidx[row] * n + P(v)) * 8, ZERO, 8, 'R', ((v, n),)),)
        st.mem['partial'] = Obj('partial', 'P', ups, None, {'esize': 8, 'sort': 'R'})
        args = []
        if op.sig == 'erf': args.append(P(self.enum_code()['ErfOp' if op.enum == 'erf' else 'ErfcOp']))
        args += [self.iz, Ptr('arg', 0)]
        if op.sig in ('binary', 'erf'): args.append(Ptr('parameter', 0))
        args += [cap, Ptr('taylor', 0), n, Ptr('partial', 0)]
        if op.special == 'powvp':
            wc = P(var('w_cap')); wl = P(var('w_len')); ax += [ge(wc, n), ge(wl, 0), le(wl, wc)]
            st.mem['work'] = Obj('work', 'WV', (Upd('pt', ZERO, wc, 8, 'I'), Upd('pt', P(8), wl, 8, 'I'), Upd('pt', P(16), Ptr('workdata', 0), 8, 'P')), None, {})
            st.mem['workdata'] = Obj('workdata', 'W', (), None, {'esize': 8, 'sort': 'R'})
            args.append(Ptr('work', 0))
        self.name = name = '%s reverse: %s contributes exactly nothing' % (op.enum, 'a result with zero weights' if mode == 'all' else 'an order with zero weight')
        E.loop_hook = self.null_hook if mode == 'all' else self.order_hook; st.ghost['mark'] = {n: st.mem[n] for n in ('partial', 'workdata') if n in st.mem}
        outs = [s for s, _ in E.call(st, func(self.M, '%s_reverse' % op.name), args) if pr.feasible(s.pc)]
        if not outs: self.fail('no path returns')
        for s in outs:
            if mode == 'order':
                w = self.noop(E, [Outcome_(s)], {'partial': s.ghost['mark']['partial']}, None, None)
                if w is not None: self.fail(name, 'order zero: %s' % w)
                continue
            i, k = P(fresh('i', 'I')), P(fresh('k', 'I'))
            rows = [(self.rowidx[r], r, s.fork(ge(k, 0), lt(k, n))) for r in self.arg_rows]
            rest = [s.fork(ge(k, 0), lt(k, n), ge(i, 0), c) for c in (lt(i, self.iz - (self.nres - 1)), gt(i, self.iz))]
            for r in self.arg_rows: rest = [x.fork(c) for x in rest for c in (lt(i, self.rowidx[r]), gt(i, self.rowidx[r]))]
            rows += [(i, 'any other variable', x) for x in rest]
            for row, r, s2 in rows:
                if not pr.feasible(s2.pc): continue
                at = row * n + k; got = E.read_obj(s2, s2.mem['partial'], at * 8, 8, 'R')
                if not isinstance(got, Poly) or tainted(got): self.fail(name, 'the partial of %s becomes indeterminate (zero times an arbitrary value is added) on %s' % (r, ' and '.join(str(c) for c in s.pc)[:400]))
                want = sel('P', at * 8, 'R', 8)
                if not (got == want or Norm(pr).is_zero(got - want, s2.pc)): self.fail(name, 'the partial of %s becomes %s' % (r, got))
        self.ok(name); return self.log
class AzForward(OpCheck):
    """absolute zero product: a left factor whose coefficients are all zero gives exactly zero, whatever the right factor is"""
    engine = TaintEngine
    def run(self, mode):
        op = self.op; E, pr, ax, st = self.common(mode == 'dir')
        E.contracts = {r'^(?:double )?CppAD::azmul\(': azmul}
        cap = self.cap; p, q, r = P(var('p')), P(var('q')), P(var('r')); w = cap
        if mode == 'any': ax += [ge(p, 0), le(p, q), lt(q, cap)]; pr.scales = [cap]; args = [p, q]; lo, hi = p, q
        elif mode == '0': pr.scales = [cap]; args = []; lo = hi = ZERO
        else: ax += [ge(q, 1), lt(q, cap), ge(r, 1)]; w = (cap - 1) * r + 1; pr.scales = [r, w]; args = [q, r]; lo, hi = (q - 1) * r + 1, q * r
        pr.axioms = ax; ups = ()
        if op.args in ('v', 'vv', 'vp'):
            v = fresh('v', 'I'); ups = (Upd('pt', (self.rowidx['x'] * w + P(v)) * 8, ZERO, 8, 'R', ((v, w),)),)
            E.bases['PAR'] = anyvalue
        else: E.bases['PAR'] = lambda *a: ZERO
        E.bases['T'] = anyvalue
        # the arguments are different variables (the zero and the arbitrary one)
        if op.args == 'vv': ax.append(Not(eq(self.ix, self.iy)))
        st.mem['taylor'] = Obj('taylor', 'T', ups, None, {'esize': 8, 'sort': 'R'})
        outs = [s for s, _ in E.call(st, func(self.M, '%s_forward_%s' % (op.name, mode)), args + [self.iz, Ptr('arg', 0), Ptr('parameter', 0), cap, Ptr('taylor', 0)]) if pr.feasible(s.pc)]
        name = '%s forward_%s: zero times any value is exactly zero' % (op.enum, mode)
        if not outs: self.fail(name, 'no path returns')
        for s in outs:
            m = P(fresh('m', 'I')); s2 = s.fork(ge(m, lo), le(m, hi)); got = E.read_obj(s2, s2.mem['taylor'], (self.iz * w + m) * 8, 8, 'R')
            if not isinstance(got, Poly) or tainted(got) or got.d: self.fail(name, 'the coefficient is %s' % (got,))
        self.ok(name); return self.log
class RecAz(record.Rec):
    """recording of an absolute zero product: the operands keep their places; only a constant zero or one operand is simplified"""
    def __init__(self, M):
        record.Rec.__init__(self, M)
        for k in ('vv', 'pv', 'vp'): self.osem['Zmul%sOp' % k] = (k, lambda x, y: self.prod(x, y))
        self.dsem['zmul_dyn'] = (2, lambda x, y: self.prod(x, y))
    def prod(self, x, y): return app('azmul', [x, y], 'R')
    def engine(self):
        E, pr, st = record.Rec.engine(self)
        E.contracts[r'^(?:double )?CppAD::azmul\(double'] = lambda E, st, a, ins, dem: [(st, self.prod(E.num(E.load(st, a[0], ('fp', 'double'))), E.num(E.load(st, a[1], ('fp', 'double')))))]
        return E, pr, st
    def iszero(self, st, d, sub=True):
        s = {}
        for c in st.pc:
            if c.k == 'eq0' and c.a[1] == 'R':
                p = subst(c.a[0], s)
                for a in p.atoms():
                    if ATOMS[a].kind != 'VAR': continue
                    cc = coeff(p, ATOMS[a])
                    if cc and cc[0].cval(): s = {k: subst(x, {a: -cc[1] / cc[0]}) for k, x in s.items()}; s[a] = -cc[1] / cc[0]; break
        d = subst(d, s)
        def rule(n, a):
            if n == 'azmul':
                x, y = a
                if not x.d or not y.d: return ZERO
                if x.cval() == 1: return y
                if y.cval() == 1: return x
        return not record.mapterm(d, rule).d
def body_driver():
    return '#include <cppad/cppad.hpp>\nextern "C" { double az_double(double x, double y) { return CppAD::azmul(x, y); } float az_float(float x, float y) { return CppAD::azmul(x, y); } }\n'
def body(M, ty):
    """azmul of the base type: zero when the left operand is zero, the ordinary product otherwise"""
    log = []; nm = 'azmul<%s>' % ty
    for zero in (True, False):
        pr = Prover(); E = TaintEngine(M, pr); x = ZERO if zero else P(var('x', 'R')); y = NAN if zero else P(var('y', 'R'))
        if not zero: pr.axioms = [Not(eq0(x, 'R'))]
        outs = [(s, r) for s, r in E.call(State(), '@az_' + ty, [x, y]) if pr.feasible(s.pc)]
        if not outs: raise ObligationFailed(nm, 'no path returns')
        for s, r in outs:
            if tainted(r) or (r.d if zero else not Norm(pr).is_zero(r - x * y, s.pc)): raise ObligationFailed('%s: %s' % (nm, 'zero times any value is zero' if zero else 'a non zero left operand gives the product'), 'the result is %s' % (r,))
        log.append('%s: %s' % (nm, 'zero times any value is zero' if zero else 'a non zero left operand gives the product'))
    return log
def task_rev(M, o, m): return Az(M, o).run(m)
def task_fwd(M, o, m): return AzForward(M, o).run(m)
def task_rec(M):
    R = RecAz(M); return R.check('w_azmul', lambda x, y: R.prod(x, y), 'aa', None)
def add(ctx):
    M = ctx.module(driver_source(opspec.OPS), 'varop')
    if M is not None:
        for o in opspec.OPS:
            ctx.task('%s_reverse(%s), a result with zero weights' % (o.name, o.enum), task_rev, M, o, 'all')
            ctx.task('%s_reverse(%s), an order with zero weight' % (o.name, o.enum), task_rev, M, o, 'order')
            if o.enum.startswith('zmul'):
                for m in ('0', 'any', 'dir'): ctx.task('%s_forward_%s(%s), zero factor' % (o.name, m, o.enum), task_fwd, M, o, m)
    B = ctx.module(body_driver(), 'azmul')
    if B is not None:
        for ty in ('double', 'float'): ctx.task('azmul<%s>' % ty, body, B, ty)
    R = ctx.module_of(record.load, 'record')
    if R is not None: ctx.task('recording of azmul', task_rec, R)
if __name__ == '__main__':
    import time
    names = sys.argv[1:]
    ops = [o for o in opspec.OPS if not names or o.enum in names]
    M = build.ir(driver_source(opspec.OPS), 'varop'); todo = []
    for o in ops:
        todo += [(o.enum, task_rev, M, o, m) for m in ('all', 'order')]
        if o.enum.startswith('zmul'): todo += [(o.enum, task_fwd, M, o, m) for m in ('0', 'any', 'dir')]
    if not names or 'body' in names: todo += [(t, body, build.ir(body_driver(), 'azmul'), t) for t in ('double', 'float')] + [('rec', task_rec, record.load())]
    for t in todo:
        t0 = time.time()
        try: log = t[1](*t[2:]); print('OK  ', t[0], t[-1] if isinstance(t[-1], str) else '', len(log), '%.1fs' % (time.time() - t0))
        except (Unsupported, ObligationFailed) as e: print('FAIL', t[0], t[-1], type(e).__name__, str(e)[:800], '%.1fs' % (time.time() - t0))
        sys.stdout.flush()
