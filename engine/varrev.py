"""Contracts of the reverse operators: the inner product <partial, tangent> is preserved, for every tangent that
satisfies the linearised relations of the results; i.e. reverse is the adjoint of the derivative of forward."""
from varop import *

PAR_ROWS = ('p', 'q')

def op_special(op): return op.special == 'powvp'
class RevCheck(OpCheck):
    # ------------------------------------------------------------ linearised relations
    def roff(self, row, k): return (self.rowidx[row] * self.n + k) * 8
    def D(self, st, dobj, row, k, facts=()):
        return self.E.read_obj(State(st.pc + tuple(facts), st.mem), dobj, self.roff(row, k), 8, 'R')
    def T(self, st, row, k, facts=()):
        return self.E.read_obj(State(st.pc + tuple(facts), st.mem), st.mem['taylor'], (self.rowidx[row] * self.cap + k) * 8, 8, 'R')
    def Vf(self, st):
        def f(row):
            if row == 'p': return self.pval
            if row == 'q': return self.qval
            return self.T(st, row, ZERO)
        return f
    def lin(self, st, dobj, eqn, j, zero):
        """linearised relation at order j (zero: j is order zero)"""
        tot = ZERO; Vf = self.Vf(st)
        for t in eqn:
            kind, c = t[0], t[1](SM, Vf)
            if not c.d: continue
            if zero:
                if kind == 'dmul': tot = tot + c * self.T(st, t[2], ZERO) * self.D(st, dobj, t[3], ZERO)
                elif kind in ('d', 'lin'): tot = tot + c * self.D(st, dobj, t[2], ZERO)
                else: tot = tot + c * (self.D(st, dobj, t[2], ZERO) * self.T(st, t[3], ZERO) + self.T(st, t[2], ZERO) * self.D(st, dobj, t[3], ZERO))
                continue
            if kind == 'lin': tot = tot + c * self.D(st, dobj, t[2], j)
            elif kind == 'd': tot = tot + c * j * self.D(st, dobj, t[2], j)
            else:
                k = fresh('k', 'I'); lo = P(1) if kind == 'dmul' else P(0)
                F = (ge(P(k), lo), le(P(k), j)); a, b = t[2], t[3]; K = P(k)
                if kind == 'dmul':
                    body = K * (self.D(st, dobj, b, K, F) * self.T(st, a, j - K, F) + self.T(st, b, K, F) * self.D(st, dobj, a, j - K, F))
                else:
                    body = self.D(st, dobj, a, K, F) * self.T(st, b, j - K, F) + self.T(st, a, K, F) * self.D(st, dobj, b, j - K, F)
                tot = tot + c * mk_sum(k, lo, j, body)
        return tot
    def pivot(self, st, row, eqn, j, zero):
        """coefficient of D[row,j] in the linearised relation at order j"""
        A = ZERO; Vf = self.Vf(st)
        for t in eqn:
            kind, c = t[0], t[1](SM, Vf)
            if kind == 'lin' and t[2] == row: A = A + c
            elif kind == 'd' and t[2] == row: A = A + (c if zero else c * j)
            elif kind == 'dmul' and t[3] == row: A = A + (c if zero else c * j) * self.T(st, t[2], ZERO)
            elif kind == 'mul':
                if t[2] == row: A = A + c * self.T(st, t[3], ZERO)
                if t[3] == row: A = A + c * self.T(st, t[2], ZERO)
        return A
    def deps(self, row, rows):
        """rows of the set whose same order tangent appears in the relation of row"""
        out = set()
        for t in self.op.row(row)[2]:
            names = (t[3],) if t[0] == 'dmul' else (t[2],) if t[0] in ('lin', 'd') else (t[2], t[3])
            for n in names:
                if n in rows and n != row: out.add(n)
        return out
    def lower(self, row, rows):
        """does the relation of row refer to lower orders of rows"""
        for t in self.op.row(row)[2]:
            if t[0] in ('dmul', 'mul') and (t[2] in rows or t[3] in rows): return True
        return False
    def eliminate(self, st, cells, zero):
        """D object in which the tangents of the cells (row -> order) are expressed by the others"""
        dobj = Obj('D', 'D', (), None, {})
        left = dict(cells); done = []
        while left:
            for row in sorted(left):
                same = [r for r in left if r != row and left[r] == left[row]]
                ot = [r for r in left if r != row and left[r] != left[row]]
                if self.deps(row, same): continue
                # a cell of a different order must be defined before it is used by a higher order
                if any(self.pr.prove(st.pc, lt(left[r], left[row])) and self.lower(row, {r}) for r in ot): continue
                break
            else: return None
            k = left.pop(row)
            eqn = self.op.row(row)[2]
            A = self.pivot(st, row, eqn, k, zero)
            if not A.d: return None
            d0 = dobj.with_upd(Upd('pt', self.roff(row, k), ZERO, 8, 'R'))
            B = self.lin(st, d0, eqn, k, zero)
            U = -B / A
            dobj = dobj.with_upd(Upd('pt', self.roff(row, k), U, 8, 'R'))
            done.append((row, k, U))
        return dobj, done
    # ------------------------------------------------------------ change of the inner product
    def locate_rev(self, pc, off):
        w = exact_div(off, P(8))
        if w is None: self.fail('misaligned partial write', str(off))
        for row in self.zrows + self.arg_rows:
            rel = w - self.rowidx[row] * self.n
            if self.pr.prove(pc, And(ge(rel, 0), lt(rel, self.n))): return row
        self.fail('frame: write outside the rows of the operator', str(off))
    def delta(self, st, dobj):
        """change of <partial, D> since the last settlement"""
        tot = ZERO
        for name in self.tracked:
            o = st.mem[name]
            for i, u in enumerate(o.upds):
                if u.kind == 'havoc' or u in o.meta['checked']: continue
                pc = st.pc
                for v, nn in u.vars: pc = pc + (ge(P(v), 0), lt(P(v), nn))
                if u.guard is not TRUE: pc = pc + (u.guard,)
                if not self.pr.feasible(pc): continue
                s2 = State(pc, st.mem)
                if name == 'partial':
                    self.locate_rev(pc, u.off); doff = u.off
                else: doff = u.off + self.rowidx['x'] * self.n * 8
                Dv = self.E.read_obj(s2, dobj, doff, 8, 'R')
                if u.kind == 'acc': c = u.val * Dv
                else: c = (u.val - self.E.read_obj(s2, o, u.off, 8, 'R', start=i)) * Dv
                if u.guard is not TRUE: c = ite(u.guard, c, 0)
                for v, nn in reversed(u.vars): c = mk_sum(v, ZERO, nn - 1, c)
                tot = tot + c
        return tot
    def pval_after(self, st, row, k):
        return self.E.read_obj(st, st.mem['partial'], self.roff(row, k), 8, 'R')
    def preserved(self, st, cells, zero):
        """is <partial, D> on the live cells unchanged when the cells leave the live set"""
        if not cells: dobj, done = Obj('D', 'D', (), None, {}), []
        else:
            r = self.eliminate(st, cells, zero)
            if r is None: return False
            dobj, done = r
        d = self.delta(st, dobj)
        if os.environ.get('DBG') == '2': print('PRES', cells, zero, '\n   delta', d, '\n   ', [(r, str(k), str(U)) for r, k, U in done], '\n  after', [str(self.pval_after(st, r, k)) for r, k, U in done], '\n  upds', st.mem['partial'].upds, '\n   pc', st.pc)
        for row, k, U in done: d = d - self.pval_after(st, row, k) * U
        try: return self.norm.is_zero(d, st.pc)
        except (ValueError, ZeroDivisionError) as e: return False
    def pending(self, st):
        return any(u.kind != 'havoc' and u not in st.mem[n].meta['checked'] for n in self.tracked for u in st.mem[n].upds)
    def havoc(self, st):
        self.hv += 1
        o = st.mem['partial']
        if self.op.special == 'powvp':
            ups = (Upd('havoc', self.lowrow * self.n * 8, 'PZ%d' % self.hv, self.n * 8 * self.nres, 'R'),)
            for u in o.upds:
                if u.kind != 'havoc':
                    pc = st.pc
                    for v, nn in u.vars: pc = pc + (ge(P(v), 0), lt(P(v), nn))
                    if self.locate_rev(pc, u.off) not in self.zrows: self.fail('frame: partial of the argument written early')
            st.mem['partial'] = Obj('partial', o.base, ups, o.size, dict(o.meta, checked=frozenset(ups)))
            w = st.mem['workdata']
            st.mem['workdata'] = Obj(w.name, 'W%d' % self.hv, (), w.size, dict(w.meta, checked=frozenset()))
        else: st.mem['partial'] = Obj('partial', 'P%d' % self.hv, (), o.size, dict(o.meta, checked=frozenset()))
    def allzero(self, st, row):
        H = st.ghost['live'][row]
        if row in st.ghost['zero']: return True
        k = P(fresh('k', 'I'))
        pc = st.pc + (ge(k, 0), le(k, H))
        v = self.E.read_obj(State(pc, st.mem), st.mem['partial'], self.roff(row, k), 8, 'R')
        if not v.d: return True
        goal = eq0(v, 'R')
        def conj(c): return list(c.a) if c.k == 'and' else [c]
        for c in st.pc:
            for x in conj(c):
                if x is goal: return True
                if x.k == 'eq0' and self.pr.prove(pc, goal): return True
                if x.k != 'forall': continue
                tv = ATOMS[x.a[0]]
                for y in conj(x.a[3]):
                    if y.k != 'eq0': continue
                    for a in y.a[0].atoms():
                        if ATOMS[a].kind != 'SEL': continue
                        for b in v.atoms():
                            if ATOMS[b].kind != 'SEL' or ATOMS[b].args[0] != ATOMS[a].args[0]: continue
                            cc = coeff(ATOMS[a].args[1], tv)
                            if cc is None or not cc[0].d: continue
                            q = exact_div(ATOMS[b].args[1] - cc[1], cc[0])
                            if q is None or not self.pr.prove(pc, And(ge(q, x.a[1]), le(q, x.a[2]))): continue
                            if subst(y, {tv.id: q}) is goal: return True
        return False
    def settle(self, st, where, final=False):
        """straight line code since the last settlement must preserve the inner product, eliminating order zero
        of some result rows whose higher orders have been eliminated"""
        pr = self.pr
        live = st.ghost['live']
        for row in list(live):
            if row not in st.ghost['zero'] and self.allzero(st, row):
                live = {r: h for r, h in live.items() if r != row}
        if self.op.special == 'powvp' and not st.ghost['copied'] and (self.pending(st) or final):
            if 'z0' in live:
                # the working copy must equal the partials of the argument
                k = P(fresh('k', 'I')); pc = st.pc + (ge(k, 0), lt(k, self.n)); s2 = State(pc, st.mem)
                a = self.E.read_obj(s2, st.mem['workdata'], k * 8, 8, 'R')
                b = self.E.read_obj(s2, st.mem['partial'], self.roff('x', k), 8, 'R')
                if a is UNDEF or not self.norm.is_zero(a - b, pc): self.fail('working copy of the argument partials')
                st.ghost['copied'] = True
                w = st.mem['workdata']; st.mem['workdata'] = Obj(w.name, w.base, w.upds, w.size, dict(w.meta, checked=frozenset(w.upds)))
        st.ghost['live'] = live
        if not self.pending(st): return
        cand = [r for r in live if pr.prove(st.pc, eq(live[r], 0))]
        tries = [()]
        for n in range(1, len(cand) + 1): tries += list(itertools.combinations(cand, n))
        tries.sort(key=lambda s: -len(s) if final else len(s))
        for rows in tries:
            if self.preserved(st, {r: ZERO for r in rows}, True):
                st.ghost['live'] = {r: h for r, h in live.items() if r not in rows}
                self.ok('%s reverse: order zero of %s (%s)' % (self.op.enum, ','.join(rows) or 'no row', where))
                self.mark(st); return
        self.fail('reverse order zero does not preserve the inner product', '%s live %s residual %s' % (where, live, str(getattr(self.norm, 'residual', ''))[:500]))
    def mark(self, st):
        """remember that the present contents are settled"""
        st.ghost['zero'] = frozenset()
        for n in self.tracked:
            o = st.mem[n]
            st.mem[n] = Obj(o.name, o.base, o.upds, o.size, dict(o.meta, checked=frozenset(o.upds)))
    # ------------------------------------------------------------ driver
    def reverse(self):
        op = self.op
        E, pr, ax, st = self.common(False)
        self.n = n = P(var('n_order')); cap = self.cap
        ax += [ge(n, 1), le(n, cap)]
        self.stride = cap; pr.scales = [cap, n]
        pr.axioms = ax
        self.lowrow = self.iz - (self.nres - 1); self.hv = 0
        st.mem['taylor'] = Obj('taylor', 'T', (), None, {'const': True, 'esize': 8, 'sort': 'R'})
        v = fresh('v', 'I'); ups = ()
        # the partials of auxiliary results are zero on entry
        for row in self.zrows[1:]:
            v = fresh('v', 'I')
            ups += (Upd('pt', (self.rowidx[row] * n + P(v)) * 8, ZERO, 8, 'R', ((v, n),)),)
        st.mem['partial'] = Obj('partial', 'P', ups, None, {'esize': 8, 'sort': 'R', 'checked': frozenset(ups)})
        self.tracked = ['partial']
        st.ghost['live'] = {r: n - 1 for r in self.zrows}
        st.ghost['zero'] = frozenset(self.zrows[1:])
        name = '%s_reverse' % op.name
        args = []
        if op.sig == 'erf': args.append(P(self.enum_code()['ErfOp' if op.enum == 'erf' else 'ErfcOp']))
        args += [self.iz, Ptr('arg', 0)]
        if op.sig in ('binary', 'erf'): args.append(Ptr('parameter', 0))
        args += [cap, Ptr('taylor', 0), n, Ptr('partial', 0)]
        if op.special == 'powvp':
            self.tracked.append('workdata'); st.ghost['copied'] = False
            # CppAD::vector<double> with capacity for n_order elements: {capacity_, length_, data_}
            wc = P(var('w_cap')); wl = P(var('w_len')); ax += [ge(wc, n), ge(wl, 0), le(wl, wc)]
            st.mem['work'] = Obj('work', 'WV', (Upd('pt', ZERO, wc, 8, 'I'), Upd('pt', P(8), wl, 8, 'I'), Upd('pt', P(16), Ptr('workdata', 0), 8, 'P')), None, {})
            st.mem['workdata'] = Obj('workdata', 'W', (), None, {'esize': 8, 'sort': 'R', 'checked': frozenset()})
            args.append(Ptr('work', 0))
        E.loop_hook = self.rev_hook
        if not pr.feasible(()): self.fail('vacuous precondition')
        self.norm = Norm(pr)
        outs = E.call(st, func(self.M, name), args)
        if not outs: self.fail('no path returns')
        for s, _ in outs:
            if not pr.feasible(s.pc): continue
            if op.special == 'powvp':
                self.powvp_end(s); continue
            self.settle(s, 'end', final=True)
            for row in list(s.ghost['live']):
                if pr.prove(s.pc, lt(s.ghost['live'][row], 0)) or self.allzero(s, row) or self.constant(row): s.ghost['live'].pop(row)
            if s.ghost['live']: self.fail('partials of the result are not propagated', 'live at return: %s' % (s.ghost['live'],))
            self.ok('%s reverse: every partial of the results is propagated' % op.enum)
        return self.log
    def constant(self, row):
        """the tangent of the row is identically zero"""
        return all(t[0] == 'lin' and t[2] == row for t in self.op.row(row)[2])
    def powvp_end(self, s):
        pr = self.pr
        x0 = self.T(s, 'x', ZERO); c = eq0(x0, 'R')
        # the argument partial is the working copy (or unchanged when x0 is zero)
        k = P(fresh('k', 'I')); pc = s.pc + (ge(k, 0), lt(k, self.n)); s2 = State(pc, s.mem)
        px = self.E.read_obj(s2, s.mem['partial'], self.roff('x', k), 8, 'R')
        w = self.E.read_obj(s2, s.mem['workdata'], k * 8, 8, 'R')
        p0 = sel('P', self.roff('x', k), 'R')
        if 'z0' in s.ghost['live'] and self.allzero(s, 'z0'): s.ghost['live'].pop('z0')
        elif s.ghost['live']:
            o = s.mem['partial']
            # settle without the final copy
            keep = tuple(u for u in o.upds if u.kind == 'havoc' or self.locate_rev(pc + tuple(x for v, nn in u.vars for x in (ge(P(v), 0), lt(P(v), nn))), u.off) in self.zrows)
            s3 = s.fork(); s3.mem['partial'] = Obj(o.name, o.base, keep, o.size, o.meta)
            self.settle(s3, 'end', final=True)
            if s3.ghost['live']: self.fail('partials of the result are not propagated', str(s3.ghost['live']))
            if not self.norm.is_zero(px - w, pc + (Not(c),)): self.fail('argument partials are not the working copy')
        if not self.norm.is_zero(px - p0, pc + (c,)): self.fail('argument partials changed when the base is zero', 'x[0] == 0: px[k] after is %s' % (px,))
        self.ok('powvp reverse: argument partials at return')
    def rev_hook(self, E, st, env, f, L, prev):
        if E.loop_depth > 0: return None
        live = st.ghost['live']
        self.induct_objs = set(self.tracked)
        E.loop_depth += 1
        try:
            g = self.generic_loop(E, st, env, f, L, prev, True)
            writes = g is not None and any(o.st.mem['partial'] is not st.mem['partial'] for o in g[4])
            if not writes or not live:
                E.loop_depth -= 1
                try: return None
                finally: E.loop_depth += 1
            pre = st
            st = st.fork()
            self.settle(st, 'before a loop')
            live = st.ghost['live']; zero = st.ghost['zero']
            if op_special(self.op) and not live:
                E.loop_depth -= 1
                try: return E.loop_default(st, env, f, L, prev)
                finally: E.loop_depth += 1
            self.havoc(st)
            t, form, used, T, backs, s0 = self.generic_loop(E, st, env, f, L, prev, True)
            N, side = T
            if side is not None and not self.pr.prove(st.pc, side):
                if self.pr.prove(st.pc, Not(side)): N = ZERO
                else:
                    E.loop_depth -= 1
                    try:
                        res = []
                        for c in (side, Not(side)):
                            s2 = pre.fork(c)
                            if self.pr.feasible(s2.pc): res += self.rev_hook(E, s2, env, f, L, prev)
                        return res
                    finally: E.loop_depth += 1
            N = P(N)
            # candidate orders
            orders = []
            for ph in f.blocks[L.header].phis:
                v = form[ph.res]
                if isinstance(v, Ptr): continue
                cc = coeff(v, t)
                if cc is None or cc[0].cval() not in (1, -1): continue
                for dlt in (0, -1, 1):
                    if v + dlt not in orders: orders.append(v + dlt)
            plan = None
            rows = list(live)
            iters = [State(o.st.pc + (lt(P(t), N),), o.st.mem, (), {}) for o in backs]
            iters = [s for s in iters if self.pr.feasible(s.pc)]
            cands = []
            for v in orders:
                cands += [{r: v} for r in rows]
                for size in range(2, len(rows) + 1):
                    for rs in itertools.combinations(rows, size):
                        cands.append({r: v for r in rs})
                        cands.append({r: (v if i == 0 else v - 1) for i, r in enumerate(rs)})
            cands.append({})
            why = ''
            for cells in cands:
                ok = self.direction(st, cells, live, zero, t, N)
                if ok is None: continue
                newlive = ok
                good = True
                for s in iters:
                    if not self.check_iter(s, cells, t, N): good = False; break
                if good: plan = (cells, newlive); break
                if not why or len(cells) == len(rows): why = '%s: %s' % (cells, str(getattr(self.norm, 'residual', ''))[:500])
            if plan is None: self.fail('reverse loop does not preserve the inner product', 'loop %s live %s; %s' % (L.header, live, why))
            cells, newlive = plan
            self.ok('%s reverse: loop preserves the inner product, eliminates %s' % (self.op.enum, cells))
            st2 = s0.fork()
            st2.ghost['live'] = newlive; st2.ghost['zero'] = frozenset()
            self.havoc(st2)
            e3 = dict(env); sub = {t.id: N}
            for ph in f.blocks[L.header].phis:
                v = form[ph.res]
                e3[ph.res] = Ptr(v.obj, subst(v.off, sub)) if isinstance(v, Ptr) else subst(v, sub)
            c = subst(Not(used), sub)
            if c is not TRUE: st2 = st2.fork(c)
            E.summarised += 1
        finally: E.loop_depth -= 1
        ret = []
        for o in E.run(st2, e3, f, L.header, prev, L.body, skip_loop=L.header):
            if o.kind == 'ret': ret.append((o.st, o.env, o.data, None)); continue
            if o.data[1] == L.header:
                if self.pr.feasible(o.st.pc): self.fail('loop exit')
                continue
            ret.append((o.st, o.env, o.data[0], o.data[1]))
        return ret
    def direction(self, st, cells, live, zero, t, N):
        """do the cells sweep the live set of their rows? -> live set after the loop, None if not"""
        pr = self.pr
        newlive = dict(live)
        z = {t.id: ZERO}
        for row, v in cells.items():
            k = coeff(v, t)[0].cval()
            first = subst(v, z)
            if k == -1:
                if row in zero:
                    if not pr.prove(st.pc, le(first, live[row])): return None
                elif not pr.prove(st.pc, eq(first, live[row])): return None
                if not pr.prove(st.pc + (ge(P(t), 0), lt(P(t), N)), ge(v, 0)): return None
                newlive[row] = subst(v, {t.id: N})
            else:
                if self.lower(row, set(cells)): return None
                if not pr.prove(st.pc, eq(first, 0)): return None
                if not pr.prove(st.pc, eq(N, live[row] + 1)): return None
                newlive.pop(row)
        newlive = {r: h for r, h in newlive.items() if not pr.prove(st.pc, lt(h, 0))}
        return newlive
    def check_iter(self, s, cells, t, N):
        pr = self.pr
        vs = list(cells.values())
        if not vs: return self.preserved(s, {}, False)
        zs = [eq(v, 0) for v in vs]
        if all(pr.prove(s.pc, ge(v, 1)) for v in vs): return self.preserved(s, cells, False)
        # some order may be zero in this iteration
        if len(set(vs)) == 1:
            v = vs[0]
            a = State(s.pc + (ge(v, 1),), s.mem); b = State(s.pc + (zs[0],), s.mem)
            # substitute the order: the zero case is checked with the loop index fixed
            ok = not pr.feasible(a.pc) or self.preserved(a, cells, False)
            if not ok: return False
            if not pr.feasible(b.pc): return True
            if any(tm[0] in ('dmul', 'd') for r in cells for tm in self.op.row(r)[2]): return self.preserved(b, cells, True) if False else self.zero_iter(b, cells, v)
            return self.preserved(b, cells, False)
        # mixed orders: order zero of the lower row uses the general form, valid for relations without derivatives
        low = [r for r, v in cells.items() if not pr.prove(s.pc, ge(v, 1))]
        if any(tm[0] in ('dmul', 'd') for r in low for tm in self.op.row(r)[2]): return False
        return self.preserved(s, cells, False)
    def zero_iter(self, s, cells, v):
        return self.preserved(s, {r: v for r in cells}, True)

if __name__ == '__main__':
    import time
    names = sys.argv[1:]
    ops = [o for o in opspec.OPS if not names or o.enum in names]
    M = build.ir(driver_source(ops), 'varop')
    for o in ops:
        t0 = time.time()
        try:
            c = RevCheck(M, o)
            log = c.reverse()
            print('OK  ', o.enum, len(log), '%.1fs' % (time.time() - t0))
            if os.environ.get('DBG'): print('\n'.join(log))
        except (Unsupported, ObligationFailed) as e:
            print('FAIL', o.enum, type(e).__name__, str(e)[:1200], '%.1fs' % (time.time() - t0))
            if os.environ.get('TB'): raise
        sys.stdout.flush()
