"""Discharges side conditions (linear integer/real arithmetic with uninterpreted reads) with z3."""
import z3, time
from terms import *

class Stats:
    def __init__(self): self.clear()
    def clear(self): self.q = 0; self.t = 0.0; self.unknown = 0
    def get(self): return {'z3_queries': self.q, 'z3_seconds': round(self.t, 2), 'z3_unknown': self.unknown}
STATS = Stats()
TIMEOUT_MS = 4000

class Prover:
    def __init__(self):
        self.scales = []        # nonnegative int polys used for product lemmas
        self.scalable = None    # set of VAR ids allowed in scaled facts (None: all)
        self.axioms = []        # Conds always assumed (spec preconditions)
        self._zp = {}; self._zc = {}; self._za = {}; self._zm = {}
        self.cache = {}
        self.fcache = {}
        self.triggers = {}      # base name -> fn(offset, element, holds) -> facts about that element
        self._tr = {}
    # -------------------------------------------------------- translation
    def atom(self, a):
        r = self._za.get(a.id)
        if r is not None: return r
        if a.kind == 'VAR' or a.sort == 'R':
            if a.kind == 'ITE':
                c, x, y = a.args
                r = z3.If(self.cond(c), self.poly(x, 'R'), self.poly(y, 'R'))
            elif a.kind == 'APP':
                r = self._app(a)
            else:
                r = (z3.Int if a.sort == 'I' else z3.Real if a.sort == 'R' else z3.Bool)('a%d' % a.id)
        elif a.kind == 'SEL':
            f = z3.Function('sel_%s_%s' % (a.args[0], a.sort), z3.IntSort(), z3.IntSort())
            r = f(self.poly(a.args[1], 'I'))
        elif a.kind == 'APP': r = self._app(a)
        elif a.kind == 'ITE':
            c, x, y = a.args
            r = z3.If(self.cond(c), self.poly(x, 'I'), self.poly(y, 'I'))
        elif a.kind == 'B2I':
            r = z3.If(self.cond(a.args[0]), z3.IntVal(1), z3.IntVal(0))
        else:
            r = z3.Int('a%d' % a.id)
        self._za[a.id] = r
        return r
    def _app(self, a):
        args = []; sorts = []
        for x in a.args[1:]:
            if isinstance(x, Poly):
                s = 'I' if x.is_int() and a_int_coef(x) else 'R'
                args.append(self.poly(x, s)); sorts.append(z3.IntSort() if s == 'I' else z3.RealSort())
            elif isinstance(x, Cond): args.append(self.cond(x)); sorts.append(z3.BoolSort())
        nm = '%s_%s_%s' % (a.args[0], '_'.join(str(x) for x in a.args[1:] if isinstance(x, str)), ''.join(str(s)[0] for s in sorts))
        rs = z3.IntSort() if a.sort == 'I' else z3.RealSort()
        if not args: return z3.Const(nm, rs)
        return z3.Function(nm, *(sorts + [rs]))(*args)
    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1: return self.atom(ATOMS[m[0][0]])
        r = self._zm.get(m)
        if r is None:
            real = any(e < 0 or ATOMS[a].sort == 'R' for a, e in m)
            r = (z3.Real if real else z3.Int)('m%d' % len(self._zm))
            self._zm[m] = r
        return r
    def poly(self, p, sort):
        key = (p, sort)
        r = self._zp.get(key)
        if r is not None: return r
        ts = []
        for m, c in p.d.items():
            if sort == 'I':
                t = z3.IntVal(int(c)) if not m else (self.mono(m) if c == 1 else z3.IntVal(int(c)) * self.mono(m))
            else:
                cv = z3.RealVal(str(c))
                if not m: t = cv
                else:
                    x = self.mono(m)
                    if x.sort() == z3.IntSort(): x = z3.ToReal(x)
                    t = x if c == 1 else cv * x
            ts.append(t)
        r = z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else (z3.IntVal(0) if sort == 'I' else z3.RealVal(0))
        self._zp[key] = r
        return r
    def cond(self, c):
        r = self._zc.get(c)
        if r is not None: return r
        k = c.k
        if k == 'true': r = z3.BoolVal(True)
        elif k == 'false': r = z3.BoolVal(False)
        elif k == 'bvar': r = z3.Bool('a%d' % c.a[0].id)
        elif k == 'not': r = z3.Not(self.cond(c.a[0]))
        elif k == 'and': r = z3.And([self.cond(x) for x in c.a])
        elif k == 'or': r = z3.Or([self.cond(x) for x in c.a])
        elif k == 'iff': r = self.cond(c.a[0]) == self.cond(c.a[1])
        elif k == 'le0': r = self.poly(c.a[0], c.a[1]) <= 0
        elif k == 'lt0': r = self.poly(c.a[0], c.a[1]) < 0
        elif k == 'eq0': r = self.poly(c.a[0], c.a[1]) == 0
        elif k == 'forall':
            v = self.atom(ATOMS[c.a[0]])
            r = z3.ForAll([v], z3.Implies(z3.And(self.poly(c.a[1], 'I') <= v, v <= self.poly(c.a[2], 'I')), self.cond(c.a[3])))
        elif k == 'selb':
            f = z3.Function('selb_%s' % c.a[0], z3.IntSort(), z3.BoolSort())
            r = f(self.poly(c.a[1], 'I'))
        elif k == 'appb':
            args = []; sorts = []
            for x in c.a[1:]:
                if isinstance(x, Poly):
                    s = 'I' if x.is_int() and a_int_coef(x) else 'R'
                    args.append(self.poly(x, s)); sorts.append(z3.IntSort() if s == 'I' else z3.RealSort())
                elif isinstance(x, Cond): args.append(self.cond(x)); sorts.append(z3.BoolSort())
            nm = 'b_%s_%s_%s' % (c.a[0], '_'.join(str(x) for x in c.a[1:] if isinstance(x, str)), ''.join(str(s)[0] for s in sorts))
            r = z3.Function(nm, *(sorts + [z3.BoolSort()]))(*args) if args else z3.Bool(nm)
        else: raise ValueError(k)
        self._zc[c] = r
        return r
    # -------------------------------------------------------- proving
    def nonlin(self, c):
        for x in c.a:
            if isinstance(x, Poly):
                for m in x.d:
                    if len(m) > 1 or (len(m) == 1 and m[0][1] > 1): return True
            if isinstance(x, Cond) and self.nonlin(x): return True
        return False
    def lemmas(self, facts):
        out = []
        if not self.scales: return out
        for c in facts:
            if c.k in ('le0', 'eq0') and c.a[1] == 'I':
                p = c.a[0]
                if len(p.d) > 4: continue
                if any(len(m) > 1 or (m and m[0][1] > 1) for m in p.d): continue
                if self.scalable is not None and not (p.vars() <= self.scalable): continue
                for s in self.scales:
                    out.append(mk(c.k, p * s, 'I'))
        return out
    def prove(self, pc, goal, timeout=None):
        """True when pc |= goal is established"""
        if goal is TRUE: return True
        if goal in pc: return True
        if goal.k == 'and': return all(self.prove(pc, g) for g in goal.a)
        if FALSE in pc: return True
        key = (tuple(pc), goal)
        r = self.cache.get(key)
        if r is None:
            r = self._prove(pc, goal, timeout)
            self.cache[key] = r
        return r
    def _elements(self, conds):
        """elements of triggered arrays that occur in the conditions"""
        out = {}; seen = set(); todo = list(conds)
        while todo:
            x = todo.pop()
            if isinstance(x, Cond):
                if x.id in seen: continue
                seen.add(x.id); todo += [y for y in x.a if isinstance(y, (Cond, Poly))]
            else:
                for a in x.atoms():
                    if -a - 1 in seen: continue
                    seen.add(-a - 1); A = ATOMS[a]
                    if A.kind == 'SEL' and A.args[0] in self.triggers: out[a] = A
                    todo += [y for y in A.args if isinstance(y, (Cond, Poly))]
        return out
    def _prove(self, pc, goal, timeout):
        facts = list(self.axioms) + list(pc)
        if self.triggers:
            tr = self.triggers
            for a, A in sorted(self._elements(facts + [goal]).items()):
                key = (a, tuple(pc)); r = self._tr.get(key)
                if r is None:
                    def holds(c):
                        self.triggers = {}
                        try: return self._prove(pc, c, timeout)
                        finally: self.triggers = tr
                    r = self._tr[key] = list(tr[A.args[0]](A.args[1], P(A), holds))
                facts += r
        s = z3.Solver(); s.set('timeout', timeout or TIMEOUT_MS); s.set('random_seed', 1)
        neg = Not(goal)
        for c in facts: s.add(self.cond(c))
        s.add(self.cond(neg))
        if self.scales and (self.nonlin(goal) or any(self.nonlin(c) for c in facts)):
            parts = list(neg.a) if neg.k == 'and' else [neg]
            for l in self.lemmas(facts + parts): s.add(self.cond(l))
        t0 = time.time(); r = s.check(); STATS.q += 1; STATS.t += time.time() - t0
        if r == z3.unknown: STATS.unknown += 1
        return r == z3.unsat
    def feasible(self, pc):
        """False only when pc is contradictory"""
        if FALSE in pc: return False
        return not self.prove(pc, FALSE)
    def model(self, pc):
        s = z3.Solver(); s.set('timeout', TIMEOUT_MS)
        for c in list(self.axioms) + list(pc): s.add(self.cond(c))
        for l in self.lemmas(list(self.axioms) + list(pc)): s.add(self.cond(l))
        return s.model() if s.check() == z3.sat else None
