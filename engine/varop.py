"""Contracts of the variable operators (local/var_op): forward_any, forward_dir, forward_0, reverse."""
import re, itertools, os, sys
from terms import *
import build, opspec
from symex import *
from normal import Norm, replace_atom
from prover import Prover, STATS

SIZE_T = 'size_t'
def driver_source(ops):
    s = ['#include <cppad/cppad.hpp>', 'using namespace CppAD;']
    s.append('namespace CppAD { namespace local { namespace var_op {')
    seen = set()
    for o in ops:
        if o.name in seen: continue
        seen.add(o.name)
        P_ = ', const double*' if o.sig in ('binary', 'erf') else ''
        O_ = 'op_code_var, ' if o.sig == 'erf' else ''
        s.append('template void %s_forward_any<double>(%ssize_t,size_t,size_t,const addr_t*%s,size_t,double*);' % (o.name, O_, P_))
        s.append('template void %s_forward_dir<double>(%ssize_t,size_t,size_t,const addr_t*%s,size_t,double*);' % (o.name, O_, P_))
        s.append('template void %s_forward_0<double>(%ssize_t,const addr_t*%s,size_t,double*);' % (o.name, O_, P_))
        W = ', CppAD::vector<double>&' if o.special == 'powvp' else ''
        s.append('template void %s_reverse<double>(%ssize_t,const addr_t*%s,size_t,const double*,size_t,double*%s);' % (o.name, O_, P_, W))
    s.append('}}}')
    return '\n'.join(s)

def func(module, name):
    for n, d in module.dem.items():
        if re.search(r'\bCppAD::local::var_op::%s<' % re.escape(name), d) and module.funcs[n].defined: return n
    raise Unsupported('function %s not found' % name)

def azmul_contract(E, st, a, ins, dem):
    """azmul(x, y) == x * y over the reals (the body is verified against its own contract elsewhere)"""
    x = E.load(st, a[0], ('fp', 'double')); y = E.load(st, a[1], ('fp', 'double'))
    return E.num(x) * E.num(y)

class SymV:
    """symbolic model for the specification"""
    def fn(self, n, *a): return app(n, list(a), 'R')
    def num(self, v): return P(Fr(v))
    def sign(self, x): return ite(lt0(-x, 'R'), 1, ite(eq0(x, 'R'), 0, -1))
    def abs(self, x): return ite(lt0(-x, 'R'), x, ite(eq0(x, 'R'), 0, -x))
SM = SymV()

class Setup: pass

class OpCheck:
    engine = Engine
    def __init__(self, module, op, E=None):
        self.M = module; self.op = op
        self.log = []
    # ------------------------------------------------------------------ setup
    def common(self, multi):
        op = self.op
        pr = Prover()
        E = self.engine(self.M, pr); self.E = E; self.pr = pr
        E.contracts = {r'^(?:double )?CppAD::azmul\(': azmul_contract}
        cap = var('cap'); iz = var('i_z'); ix = var('i_x'); iy = var('i_y'); ip = var('i_p'); iq = var('i_q')
        self.cap, self.iz, self.ix, self.iy = P(cap), P(iz), P(ix), P(iy)
        nres = op.nres(); self.nres = nres
        ax = [ge(P(ix), 0), ge(P(iy), 0), ge(P(ip), 0), ge(P(iq), 0), le(P(ix), P(iz) - nres), le(P(iy), P(iz) - nres), ge(P(cap), 1)]
        st = State()
        self.rowidx = {'x': P(ix), 'y': P(iy)}
        self.zrows = ['z%d' % k for k in range(nres)]
        for k in range(nres): self.rowidx['z%d' % k] = P(iz) - k
        argvals = []
        self.arg_rows = []
        if op.args in ('v', 'vv', 'vp'): argvals.append(P(ix)); self.arg_rows.append('x')
        if op.args == 'pv': argvals += [P(ip), P(iy)]; self.arg_rows.append('y')
        if op.args == 'vv': argvals.append(P(iy)); self.arg_rows.append('y')
        if op.args == 'vp': argvals.append(P(ip))
        if op.sig == 'erf': argvals += [P(ip), P(iq)]
        argo = Obj('arg', 'ARG', tuple(Upd('pt', P(4 * i), v, 4, 'I') for i, v in enumerate(argvals)), None, {'const': True})
        st.mem['arg'] = argo
        st.mem['parameter'] = Obj('parameter', 'PAR', (), None, {'const': True, 'esize': 8, 'sort': 'R'})
        self.pval = sel('PAR', P(ip) * 8, 'R'); self.qval = sel('PAR', P(iq) * 8, 'R')
        return E, pr, ax, st
    def enum_code(self):
        txt = open(os.path.join(build.REPO, 'include/cppad/local/op_code_var.hpp')).read()
        body = re.search(r'enum op_code_var\s*\{(.*?)\}', txt, re.S).group(1)
        names = re.findall(r'^\s*(\w+Op)\s*,', body, re.M)
        return {n: i for i, n in enumerate(names)}
    # order k coefficient of a row
    def coefoff(self, row, k, ell=None):
        base = self.rowidx[row] * self.stride
        if ell is None: return (base + k) * 8
        return (base + (k - 1) * self.r + 1 + ell) * 8
    def term_eq(self, rd, rd0, eq, j, lin=None):
        """value of the j-th coefficient of the relation; rd(row,k) reads order k>=1, rd0(row) order 0.
        lin: None for the relation itself, else D(row,k) tangent -> linearised relation"""
        raise NotImplementedError
    def read(self, st, obj, off):
        v = self.E.read_obj(st, st.mem[obj], off, 8, 'R')
        if v is UNDEF: raise ObligationFailed('uninitialised coefficient')
        return v
    def V(self, st, obj='taylor'):
        def f(row):
            if row == 'p': return self.pval
            if row == 'q': return self.qval
            return self.read(st, obj, self.rowidx[row] * self.stride * 8)
        return f
    # coefficient readers that stay valid inside sums (range facts given)
    def coef(self, st, row, k, facts, multi):
        """order k coefficient, k symbolic >= 0"""
        s2 = State(st.pc + tuple(facts), st.mem)
        if not multi: return self.read(s2, 'taylor', self.coefoff(row, k))
        z = eq(k, 0)
        if self.pr.prove(s2.pc, z): return self.read(s2, 'taylor', self.coefoff(row, P(0)))
        if self.pr.prove(s2.pc, Not(z)): return self.read(s2, 'taylor', self.coefoff(row, k, self.ell))
        a = self.read(State(s2.pc + (z,), st.mem), 'taylor', self.coefoff(row, P(0)))
        b = self.read(State(s2.pc + (Not(z),), st.mem), 'taylor', self.coefoff(row, k, self.ell))
        return ite(z, a, b)
    def relation(self, st, eqn, j, multi):
        """j-th coefficient (j >= 1) of the relation"""
        tot = ZERO; Vf = self.V(st)
        for t in eqn:
            kind, c = t[0], t[1](SM, Vf)
            if kind == 'lin': tot = tot + c * self.coef(st, t[2], j, (), multi)
            elif kind == 'd': tot = tot + c * j * self.coef(st, t[2], j, (), multi)
            else:
                k = fresh('k', 'I'); lo = P(1) if kind == 'dmul' else P(0)
                facts = (ge(P(k), lo), le(P(k), j))
                a, b = t[2], t[3]
                if kind == 'dmul': body = P(k) * self.coef(st, b, P(k), facts, multi) * self.coef(st, a, j - P(k), facts, multi)
                else: body = self.coef(st, a, P(k), facts, multi) * self.coef(st, b, j - P(k), facts, multi)
                tot = tot + c * mk_sum(k, lo, j, body)
        return tot
    def fail(self, name, detail=''): raise ObligationFailed(name, detail)
    def ok(self, name): self.log.append(name)
    # ------------------------------------------------------------------ forward
    def forward(self, mode):
        """mode: 'any', 'dir', '0'"""
        op = self.op; multi = mode == 'dir'
        E, pr, ax, st = self.common(multi)
        cap = self.cap
        p, q, r = P(var('p')), P(var('q')), P(var('r'))
        self.multi = multi
        if mode == 'any':
            ax += [ge(p, 0), le(p, q), lt(q, cap)]; self.stride = cap; pr.scales = [cap]
        elif mode == '0':
            self.stride = cap; p = q = ZERO; pr.scales = [cap]
        else:
            self.r = r; ax += [ge(q, 1), lt(q, cap), ge(r, 1)]; p = q
            self.stride = (cap - 1) * r + 1; pr.scales = [r, self.stride]
        self.p, self.q = p, q
        pr.axioms = ax
        pr.scalable = {a for x in (self.iz, self.ix, self.iy, cap, P(var('p')), P(var('q'))) for a in x.atoms()}
        pr.scalable = None
        self.lowrow = self.iz - (self.nres - 1)
        self.hv = 0
        st.mem['taylor'] = Obj('taylor', 'T', (), None, {'esize': 8, 'sort': 'R'})
        self.havoc_rows(st)
        st.ghost['cover'] = ()
        name = '%s_forward_%s' % (op.name, mode)
        args = []
        if op.sig == 'erf': args.append(P(self.enum_code()['ErfOp' if op.enum == 'erf' else 'ErfcOp']))
        if mode == 'any': args += [p, q]
        elif mode == 'dir': args += [q, r]
        args += [self.iz, Ptr('arg', 0)]
        if op.sig in ('binary', 'erf'): args.append(Ptr('parameter', 0))
        args += [cap, Ptr('taylor', 0)]
        E.loop_hook = self.fwd_hook
        if not pr.feasible(()): self.fail('vacuous precondition')
        self.norm = Norm(pr)
        outs = E.call(st, func(self.M, name), args)
        if not outs: self.fail('no path returns')
        for s, _ in outs:
            if not pr.feasible(s.pc): continue
            self.flush(s, 'end of %s' % name)
            self.coverage(s, name)
        return self.log
    def havoc_rows(self, st, keep=(), src=None):
        """forget the contents of the result rows, except the order zero of the rows in keep (as in state src)"""
        self.hv += 1
        o = st.mem['taylor']
        ups = (Upd('havoc', self.lowrow * self.stride * 8, 'Z%d' % self.hv, self.stride * 8 * self.nres, 'R'),)
        for row in keep:
            off = self.rowidx[row] * self.stride * 8
            ups += (Upd('pt', off, self.read(src or st, 'taylor', off), 8, 'R'),)
        st.mem['taylor'] = Obj(o.name, o.base, ups, o.size, dict(o.meta, checked=frozenset(ups)))
    def rows_written(self, st, old):
        rows = set()
        for u in st.mem['taylor'].upds:
            if u.kind == 'havoc' or u in old: continue
            pc = st.pc
            for v, n in u.vars: pc = pc + (ge(P(v), 0), lt(P(v), n))
            rows.add(self.locate(pc, u.off)[0])
        return rows
    def locate(self, pc, off):
        """(row, order, ell) of a byte offset in taylor"""
        w = exact_div(off, P(8))
        if w is None: self.fail('write at a misaligned offset', str(off))
        for r in range(self.nres):
            row = 'z%d' % r
            rel = w - self.rowidx[row] * self.stride
            if self.pr.prove(pc, And(ge(rel, 0), lt(rel, self.stride))):
                if not self.multi: return row, rel, None
                if self.pr.prove(pc, eq(rel, 0)): return row, P(0), None
                ell = rel - 1 - (self.q - 1) * self.r
                if self.pr.prove(pc, And(ge(ell, 0), lt(ell, self.r))): return row, self.q, ell
                self.fail('frame: write outside order q', '%s rel %s' % (row, rel))
        self.fail('frame: write outside the result rows', str(off))
    def flush(self, st, where, keep=()):
        """every pending write to taylor must satisfy the specification; then forget the values"""
        o = st.mem['taylor']
        seen = {}
        for u in o.upds:
            if u.kind == 'havoc' or u in o.meta['checked']: continue
            pc = st.pc
            uvars = u.vars
            if u.kind != 'pt': uvars = tuple((v, n) for v, n in u.vars if v.id in u.off.vars())
            for v, n in uvars: pc = pc + (ge(P(v), 0), lt(P(v), n))
            if u.guard is not TRUE: self.fail('guarded write', str(u))
            row, order, ell = self.locate(pc, u.off)
            seen[(row, order, ell, uvars)] = (pc, u)
        for (row, order, ell, vs), (pc, u) in seen.items():
            self.check_cell(State(pc, st.mem), row, order, ell, where)
            lo = hi = order
            if vs:
                if self.multi: lo = hi = order
                else:
                    v, n = vs[0]
                    cc = coeff(order, v)
                    if len(vs) > 1 or cc is None or abs(cc[0].cval() or 0) != 1: self.fail('write pattern', str(u))
                    a, b = cc[1], subst(order, {v.id: n - 1})
                    lo, hi = (a, b) if cc[0].cval() == 1 else (b, a)
            if self.multi:
                if ell is None: self.fail('frame: order zero written', where)
                if vs:
                    v, n = vs[0]; cc = coeff(ell, v)
                    if cc is None or cc[0].cval() != 1: self.fail('direction pattern', str(ell))
                    e1, e2 = cc[1], subst(ell, {v.id: n - 1})
                else: e1 = e2 = ell
                st.ghost['cover'] = st.ghost['cover'] + ((row, e1, e2),)
            else: st.ghost['cover'] = st.ghost['cover'] + ((row, lo, hi),)
        self.havoc_rows(st, keep)
    def check_cell(self, st, row, order, ell, where):
        pr = self.pr; op = self.op
        self.ell = ell
        if not self.multi:
            if not pr.prove(st.pc, And(ge(order, self.p), le(order, self.q))): self.fail('frame: order outside [p,q] written', '%s order %s' % (row, order))
        rname, zero, eqn = op.row(row)
        z = eq(order, 0)
        cases = []
        if pr.prove(st.pc, z): cases = [('0', st)]
        elif pr.prove(st.pc, Not(z)): cases = [('k', st)]
        else:
            cases = [('0', State(st.pc + (z,), st.mem)), ('k', State(st.pc + (Not(z), ge(order, 1)), st.mem))]
        for kind, s in cases:
            if not pr.feasible(s.pc): continue
            if kind == '0':
                d = self.read(s, 'taylor', self.rowidx[row] * self.stride * 8) - zero(SM, self.V(s))
                for a in order.atoms():
                    cc = coeff(order, ATOMS[a])
                    if cc is not None and abs(cc[0].cval() or 0) == 1: d = subst(d, {a: -cc[1] * cc[0]}); break
                if self.norm.is_zero(d, s.pc): self.ok('%s %s: order 0 value of %s (%s)' % (op.enum, 'dir' if self.multi else 'any', row, where))
                else: self.fail('order zero value of %s' % row, 'difference %s' % (str(d)[:400],))
            else:
                d = self.relation(s, eqn, order, self.multi)
                if op.special == 'powvp':
                    x0 = self.read(s, 'taylor', self.rowidx['x'] * self.stride * 8)
                    c = eq0(x0, 'R')
                    zz = self.coef(s, row, order, (), self.multi)
                    okk = self.norm.is_zero(zz, s.pc + (c,)) and self.norm.is_zero(d, s.pc + (Not(c),))
                else: okk = self.norm.is_zero(d, s.pc)
                if okk: self.ok('%s %s: relation of %s at order %s (%s)' % (op.enum, 'dir' if self.multi else 'any', row, order, where))
                else: self.fail('Taylor coefficient relation of %s' % row, 'order %s residual %s' % (order, str(getattr(self.norm, 'residual', ''))[:600]))
    def coverage(self, st, name):
        pr = self.pr
        m = P(fresh('m', 'I'))
        if self.multi: rng = (ge(m, 0), lt(m, self.r))
        else: rng = (ge(m, self.p), le(m, self.q))
        for r in range(self.nres):
            row = 'z%d' % r
            alts = [And(le(lo, m), le(m, hi)) for (w, lo, hi) in st.ghost['cover'] if w == row]
            if not pr.prove(st.pc + rng, Or(*alts)): self.fail('coverage: some order of %s is not computed' % row, str(st.ghost['cover']))
        self.ok('%s: every result coefficient is computed' % name)
    def generic_loop(self, E, st, env, f, L, prev, hv_taylor, tbound=None):
        """closed forms, trip count and the outcomes of one arbitrary iteration (None if not analysable)"""
        try: t, form, accs, init, syms = E.closed_forms(st, env, f, L, prev)
        except LoopFail: return None
        if accs: return None
        H = f.blocks[L.header]
        if tbound is None: tbound = E.header_bound(st, env, f, L, form, accs, t)
        # locals written by the loop hold arbitrary values at the start of an iteration
        def run_it(s0):
            s1 = s0.fork(ge(P(t), 0)); e1 = dict(env)
            if tbound is not None: s1 = s1.fork(le(P(t), tbound))
            for ph in H.phis: e1[ph.res] = form[ph.res]
            base = s1.pc
            outs = E.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header)
            return base, outs
        skip = self.induct_objs
        s0 = st
        for rounds in range(3):
            base, outs = run_it(s0)
            touched = set()
            for o in outs:
                for n, ob in o.st.mem.items():
                    if n in s0.mem and n not in skip and ob is not s0.mem[n]: touched.add(n)
            touched -= getattr(self, '_hv_done', set())
            if not touched: break
            s0 = s0.fork()
            for n in touched:
                self.hv += 1
                ob = s0.mem[n]
                s0.mem[n] = Obj(n, 'H%d' % self.hv, (), ob.size, ob.meta)
            self._hv_done = getattr(self, '_hv_done', set()) | touched
        self._hv_done = set()
        backs = [o for o in outs if o.kind == 'edge' and o.data[1] == L.header]
        exits = [o for o in outs if not (o.kind == 'edge' and o.data[1] == L.header)]
        if not backs: return None
        common = None
        for o in backs:
            s = [c for c in o.st.pc if c not in base]
            common = s if common is None else [c for c in common if c in s]
        T = None
        for c in common:
            if t.id in c.vars() and c.k in ('le0', 'not', 'eq0'):
                T = E.trip(st.pc, c, t)
                if T is not None: used = c; break
        if T is None: return None
        for o in exits:
            if Not(used) not in o.st.pc: return None
        return t, form, used, T, backs, s0
    def fwd_hook(self, E, st, env, f, L, prev):
        if E.loop_depth > 0: return None
        self.induct_objs = {'taylor'}
        E.loop_depth += 1
        try:
            g = self.generic_loop(E, st, env, f, L, prev, True)
            writes = g is not None and any(o.st.mem['taylor'] is not st.mem['taylor'] for o in g[4])
            if not writes:
                E.loop_depth -= 1
                try: return None
                finally: E.loop_depth += 1
            # re-run from a state in which the result rows are arbitrary
            old = set(st.mem['taylor'].upds)
            inloop = set()
            for o in g[4]:
                s = State(o.st.pc, o.st.mem)
                if self.pr.feasible(s.pc): inloop |= self.rows_written(s, old)
            keep = tuple(row for row in sorted(self.zrows) if row not in inloop)
            st = st.fork()
            self.flush(st, 'before a loop', keep)
            t, form, used, T, backs, s0 = self.generic_loop(E, st, env, f, L, prev, True)
            N, side = T
            if side is not None and not self.pr.prove(st.pc, side):
                if self.pr.prove(st.pc, Not(side)): N = ZERO
                else:
                    E.loop_depth -= 1
                    try:
                        res = []
                        for c in (side, Not(side)):
                            s2 = st.fork(c)
                            if self.pr.feasible(s2.pc): res += self.fwd_hook(E, s2, env, f, L, prev)
                        return res
                    finally: E.loop_depth += 1
            N = P(N)
            cover = None
            for o in backs:
                s = State(o.st.pc + (lt(P(t), N),), o.st.mem, (), {'cover': ()})
                if not self.pr.feasible(s.pc): continue
                self.flush(s, 'loop')
                cv = s.ghost['cover']
                if cover is None: cover = cv
                elif set(cover) != set(cv): self.fail('iteration paths write different cells')
            st2 = s0.fork()
            add = ()
            for (row, lo, hi) in cover or ():
                c1 = coeff(lo, t); c2 = coeff(hi, t)
                if c1 is None or c2 is None or c1[0] != c2[0]: self.fail('order pattern', '%s %s' % (lo, hi))
                k = c1[0].cval()
                if k == 1: a, b = subst(lo, {t.id: ZERO}), subst(hi, {t.id: N - 1})
                elif k == -1: a, b = subst(lo, {t.id: N - 1}), subst(hi, {t.id: ZERO})
                elif k == 0: 
                    if not self.pr.prove(st.pc, ge(N, 1)): continue
                    a, b = lo, hi
                else: self.fail('order stride', str(lo))
                add += ((row, a, b),)
            if self.multi is False:
                # ascending orders are required when lower orders feed higher ones: the relation at order j was
                # checked with arbitrary lower orders, so they must be final when iteration j starts
                for (row, lo, hi) in cover or ():
                    k = coeff(lo, t)[0].cval()
                    if k == -1 and any(tm[0] in ('dmul', 'mul') for tm in self.op.row(row)[2]): self.fail('orders computed in descending order')
            st2.ghost['cover'] = st2.ghost['cover'] + add
            self.havoc_rows(st2, keep, st)
            e3 = dict(env); sub = {t.id: N}
            for ph in f.blocks[L.header].phis:
                v = form[ph.res]
                e3[ph.res] = Ptr(v.obj, subst(v.off, sub)) if isinstance(v, Ptr) else subst(v, sub)
            c = subst(Not(used), sub)
            if c is not TRUE: st2 = st2.fork(c)
            E.summarised += 1
        finally: E.loop_depth -= 1
        ret = []
        for o in E.run(st2, e3, f, L.header, prev, L.body, skip_loop=L.header):
            if o.kind == 'ret': ret.append((o.st, o.env, o.data, None)); continue
            if o.data[1] == L.header:
                if self.pr.feasible(o.st.pc): self.fail('loop exit')
                continue
            ret.append((o.st, o.env, o.data[0], o.data[1]))
        return ret

if __name__ == '__main__':
    import time
    names = sys.argv[2:]
    mode = sys.argv[1]
    ops = [o for o in opspec.OPS if not names or o.enum in names]
    M = build.ir(driver_source(ops), 'varop')
    for o in ops:
        t0 = time.time()
        try:
            c = OpCheck(M, o)
            log = c.forward(mode) if mode != 'rev' else c.reverse()
            print('OK  ', o.enum, len(log), '%.1fs' % (time.time() - t0))
        except (Unsupported, ObligationFailed) as e:
            print('FAIL', o.enum, type(e).__name__, str(e)[:900], '%.1fs' % (time.time() - t0))
            if os.environ.get('TB'): raise
