"""Decides equalities between real terms with finite sums (rational function identities + sum algebra)."""
from terms import *
from symex import exact_div
import itertools

class Norm:
    def __init__(self, prover): self.pr = prover; self.memo = {}
    # ---------------------------------------------------------------- public
    def is_zero(self, p, pc, depth=0):
        """p == 0 (as an identity over the reals for all values of the atoms, under the path condition pc)"""
        if not p.d: return True
        if not self.pr.feasible(pc): return True
        for c in pc:
            # integer equalities on auxiliary symbols are substituted
            if c.k == 'eq0' and c.a[1] == 'I' and depth < 14:
                for a in sorted(c.a[0].atoms()):
                    if ATOMS[a].kind == 'VAR' and '!' in str(ATOMS[a].args[0]):
                        cc = coeff(c.a[0], ATOMS[a])
                        k = cc[0].cval() if cc is not None else None
                        if k is None or abs(k) != 1: continue
                        s = {a: -cc[1] * k}
                        pc2 = tuple(x for x in (subst(x, s) for x in pc) if x is not TRUE)
                        return self.is_zero(subst(p, s), pc2, depth + 1)
        q = self.lift(p, pc)
        if not q.d: return True
        at = self.find_ite(q)
        if at is not None and depth < 14:
            c = at.args[0]
            r1 = replace_atom(q, at.id, at.args[1])
            if not self.is_zero(r1, pc + (c,), depth + 1): return False
            r2 = replace_atom(q, at.id, at.args[2])
            return self.is_zero(r2, pc + (Not(c),), depth + 1)
        q = self.use_facts(q, pc)
        q = self.clear_inv(q)
        self.residual = q
        if q.d and len(q.d) <= 6 and self.pr.prove(pc, eq0(q, 'R'), 1000): return True
        return not q.d
    def use_facts(self, q, pc):
        """substitute real/int equalities  x = c  found in the path condition (atom = simple value)"""
        for c in pc:
            if c.k == 'eq0':
                p = c.a[0]
                at = [a for a in p.atoms() if ATOMS[a].kind in ('VAR', 'SEL')]
                for a in at:
                    cc = coeff(p, ATOMS[a])
                    if cc is None: continue
                    k = cc[0].cval()
                    if k is None: continue
                    v = -cc[1] / k
                    if len(v.d) > 1: continue
                    if ATOMS[a].kind == 'SEL' and not v.d:
                        q2 = replace_atom(q, a, v)
                        if q2 is not None: q = q2
                        break
        return q
    def clear_inv(self, q):
        for _ in range(10):
            inv = None
            for a in q.atoms():
                if ATOMS[a].kind == 'INV': inv = a; break
            if inv is None: return q
            n = max([e for m in q.d for a, e in m if a == inv] + [0])
            lo = min([dict(m).get(inv, 0) for m in q.d])
            den = ATOMS[inv].args[0]
            out = ZERO
            for m, c in q.d.items():
                e = dict(m).get(inv, 0)
                rest = Poly({tuple((a, x) for a, x in m if a != inv): c})
                # INV^e * den^n = den^(n-e)
                out = out + rest * den ** (max(n, 0) - e)
            q = out
            if lo < 0: pass
        return q
    def find_ite(self, q):
        best = None
        for a in q.atoms():
            r = self._fi(ATOMS[a])
            if r is not None:
                if best is None or depth(best) > depth(r): best = r
        return best
    def _fi(self, a):
        if a.kind == 'ITE' and not any(str(ATOMS[v].args[0]).startswith('#') for v in a.vars): return a
        if a.kind in ('SUM',): 
            for y in a.args[1:]:
                for b in y.atoms():
                    r = self._fi(ATOMS[b])
                    if r is not None: return r
        elif a.kind in ('INV', 'APP', 'SEL', 'ITE'):
            for y in a.args:
                if isinstance(y, Poly):
                    for b in y.atoms():
                        r = self._fi(ATOMS[b])
                        if r is not None: return r
        return None
    # ---------------------------------------------------------------- sums
    def lift(self, p, pc):
        """normal form: every SUM replaced by prefix sums of canonical monomials, endpoints unified"""
        q = self.conv(p, pc)
        return self.unify(q)
    def conv(self, p, pc):
        out = ZERO
        for m, c in p.d.items():
            t = P(c)
            for a, e in m:
                x = self.conv_atom(ATOMS[a], pc)
                if e > 0: t = t * x ** e
                else: t = t * inverse(x) ** (-e)
            out = out + t
        return out
    def conv_atom(self, a, pc):
        key = (a.id, pc)
        r = self.memo.get(key)
        if r is not None: return r
        if a.kind == 'SUM': r = self.conv_sum(a, pc)
        elif a.kind == 'INV': r = inverse(self.conv(a.args[0], pc))
        elif a.kind == 'ITE':
            c = a.args[0]
            if self.pr.prove(pc, c): r = self.conv(a.args[1], pc)
            elif self.pr.prove(pc, Not(c)): r = self.conv(a.args[2], pc)
            else: r = ite(c, self.conv(a.args[1], pc + (c,)), self.conv(a.args[2], pc + (Not(c),)))
        elif a.kind == 'APP':
            r = P(mk_atom('APP', tuple(self.unify(self.conv(y, pc)) if isinstance(y, Poly) else y for y in a.args), a.sort))
        else: r = P(a)
        self.memo[key] = r
        return r
    def conv_sum(self, a, pc):
        v = ATOMS[a.args[0]]; lo = a.args[1]; hi = a.args[2]; body = a.args[3]
        w = fresh('s', 'I')
        body = subst(body, {v.id: P(w)})
        return self.sum_range(w, lo, hi, body, pc, 0)
    def sum_range(self, w, lo, hi, body, pc, dep):
        if not body.d: return ZERO
        d = (hi - lo).cval()
        if d is not None and d == -1: return ZERO
        if self.pr.prove(pc, eq(hi, lo - 1)): return ZERO
        # split on conditionals depending on the bound variable
        ia = self.ite_on(body, w)
        if ia is not None:
            if dep > 12: raise ValueError('too many conditionals in a sum')
            c = ia.args[0]
            cond = self.pick(c, w)
            kind, at = cond
            yes = subst_cond_atom(body, ia, True, cond); no = subst_cond_atom(body, ia, False, cond)
            if kind == 'eq':
                if self.pr.prove(pc, And(le(lo, at), le(at, hi))):
                    return (self.sum_range(w, lo, at - 1, no, pc, dep + 1) + self.conv(subst(yes, {w.id: at}), pc)
                            + self.sum_range(w, at + 1, hi, no, pc, dep + 1))
                if self.pr.prove(pc, Or(lt(at, lo), gt(at, hi))): return self.sum_range(w, lo, hi, no, pc, dep + 1)
                # undetermined: keep as conditional
                inr = And(le(lo, at), le(at, hi))
                x = (self.sum_range(w, lo, at - 1, no, pc + (inr,), dep + 1) + self.conv(subst(yes, {w.id: at}), pc + (inr,))
                     + self.sum_range(w, at + 1, hi, no, pc + (inr,), dep + 1))
                return ite(inr, x, self.sum_range(w, lo, hi, no, pc + (Not(inr),), dep + 1))
            if kind in ('le', 'ge'):
                # condition true for w <= at (le) or w >= at (ge)
                A, B = (yes, no) if kind == 'le' else (no, yes)
                cut = at if kind == 'le' else at - 1      # w <= cut uses A
                if self.pr.prove(pc, ge(cut, hi)): return self.sum_range(w, lo, hi, A, pc, dep + 1)
                if self.pr.prove(pc, lt(cut, lo)): return self.sum_range(w, lo, hi, B, pc, dep + 1)
                if self.pr.prove(pc, And(le(lo - 1, cut), le(cut, hi))):
                    return self.sum_range(w, lo, cut, A, pc, dep + 1) + self.sum_range(w, cut + 1, hi, B, pc, dep + 1)
                c1 = ge(cut, hi); c2 = lt(cut, lo)
                return ite(c1, self.sum_range(w, lo, hi, A, pc + (c1,), dep + 1),
                       ite(c2, self.sum_range(w, lo, hi, B, pc + (Not(c1), c2), dep + 1),
                           self.sum_range(w, lo, cut, A, pc + (Not(c1), Not(c2)), dep + 1) + self.sum_range(w, cut + 1, hi, B, pc + (Not(c1), Not(c2)), dep + 1)))
        body = self.conv(body, pc + (le(lo, P(w)), le(P(w), hi)))
        body = self.clear_none(body)
        out = ZERO
        # group by the sum-dependent atom part
        groups = {}
        for m, c in body.d.items():
            dep_at = tuple((x, e) for x, e in m if w.id in ATOMS[x].vars and x != w.id)
            pw = dict(m).get(w.id, 0)
            rest = tuple((x, e) for x, e in m if w.id not in ATOMS[x].vars)
            g = groups.setdefault(dep_at, {})
            g[pw] = g.get(pw, ZERO) + Poly({rest: c})
        for dep_at, pol in groups.items():
            out = out + self.sum_mono(w, lo, hi, dep_at, pol)
        return out
    def clear_none(self, b): return b
    def ite_on(self, body, w):
        for a in body.atoms():
            r = self._io(ATOMS[a], w)
            if r is not None: return r
        return None
    def _io(self, a, w):
        if w.id not in a.vars: return None
        if a.kind == 'ITE':
            if w.id in a.args[0].vars() and self.pick(a.args[0], w) is not None: return a
        for y in a.args:
            if isinstance(y, Poly) and a.kind != 'SUM':
                r = self.ite_on(y, w)
                if r is not None: return r
        return None
    def pick(self, c, w):
        """an atomic condition on w inside c: ('eq', value) / ('le', bound) / ('ge', bound)"""
        if c.k in ('and', 'or', 'not'):
            for y in c.a:
                r = self.pick(y, w)
                if r is not None: return r
            return None
        if c.k in ('eq0', 'le0') and c.a[1] == 'I':
            cc = coeff(c.a[0], w)
            if cc is None or not cc[0].d: return None
            if c.k == 'eq0':
                t = exact_div(-cc[1], cc[0])
                return None if t is None else ('eq', t)
            k = cc[0].cval()
            if k is None:
                return None
            if k == 1: return ('le', -cc[1])
            if k == -1: return ('ge', cc[1])
            t = exact_div(-cc[1], P(abs(k)))
            if t is None: return None
            return ('le', t) if k > 0 else ('ge', -t)
        return None
    def sum_mono(self, w, lo, hi, dep_at, pol):
        """sum_{w=lo}^{hi} pol(w) * prod dep_at, canonical"""
        if not dep_at:
            out = ZERO
            for e, k in pol.items(): out = out + k * faul(e, lo, hi)
            return out
        # candidates for the index: atoms of kind SEL (or APP) whose offset is affine in w
        cands = []
        for x, e in dep_at:
            for off in index_args(ATOMS[x]):
                cc = coeff(off, w)
                if cc is None or not cc[0].d: continue
                cands.append((x, off, cc))
        base = Poly({tuple(sorted(dep_at)): Fr(1)})
        if not cands:
            cands = [(None, P(w), (ONE, ZERO))]
        best = None
        for x, off, (s, b) in cands:
            # new index n with off = |s|*n + rest ; rest has no part divisible by s
            sign = 1
            lead = s.d[min(s.d)] if s.d else 1
            if lead < 0: sign = -1; sa = -s
            else: sa = s
            q, r = split_div(b, sa)
            # off = sa*(sign*w + q) + r ; n = sign*w + q ; w = sign*(n - q)
            n = var('#0', 'I')
            wv = (P(n) - q) * sign
            body = subst(base, {w.id: wv})
            if sign > 0: l2, h2 = lo + q, hi + q
            else: l2, h2 = q - hi, q - lo
            key = (repr(body))
            if best is None or key < best[0]: best = (key, body, l2, h2, wv, n, q, sign)
        key, body, l2, h2, wv, n, q, sign = best
        pol2 = {}
        for e, k in pol.items():
            pw = wv ** e
            for m, c in pw.d.items():
                pe = dict(m).get(n.id, 0)
                rest = tuple((a, x) for a, x in m if a != n.id)
                pol2[pe] = pol2.get(pe, ZERO) + Poly({rest: c}) * k
        out = ZERO
        # symmetric bodies: f(n) = f(R - n)
        R = symmetry(body, n)
        if R is not None and 1 in pol2 and pol2[1].d:
            k1 = pol2.pop(1)
            c = (l2 + h2 - R).cval()
            if c is not None and c.denominator == 1 and abs(c) <= 8:
                c = int(c); a, b = l2, h2
                extra = ZERO
                for _ in range(abs(c)):
                    if c > 0: extra = extra + b * subst(body, {n.id: b}); b = b - 1
                    else: extra = extra + a * subst(body, {n.id: a}); a = a + 1
                out = out + k1 * extra + k1 * R * Fr(1, 2) * prefix_diff(n, a, b, body)
            else: pol2[1] = k1
        if R is not None:
            # the sum over [l2,h2] equals the mirrored sum over [R-h2,R-l2]: use one canonical side
            def nc(p): return repr(p - p.const())
            if nc(R - h2) < nc(l2):
                l2, h2 = R - h2, R - l2
                mir = {}
                for e, k in pol2.items():
                    for m, c in ((R - P(n)) ** e).d.items():
                        pe = dict(m).get(n.id, 0)
                        rest = tuple((a, x) for a, x in m if a != n.id)
                        mir[pe] = mir.get(pe, ZERO) + Poly({rest: c}) * k
                pol2 = mir
        for e, k in pol2.items():
            if not k.d: continue
            out = out + k * prefix_diff(n, l2, h2, body * P(n) ** e if e else body)
        return out
    def unify(self, q):
        groups = {}
        for a in q.atoms():
            at = ATOMS[a]
            if at.kind == 'PSUM': groups.setdefault(at.args[1], []).append(at)
        rep = {}
        for body, ats in groups.items():
            ats = sorted(ats, key=lambda x: repr(x.args[2]))
            reps = []
            for at in ats:
                for r in reps:
                    d = (at.args[2] - r[0].args[2]).cval()
                    if d is not None and d.denominator == 1 and abs(d) <= 8: r.append(at); break
                else: reps.append([at])
            for cl in reps:
                if len(cl) < 2: continue
                mn = min(cl, key=lambda x: (x.args[2] - cl[0].args[2]).cval())
                n = ATOMS[mn.args[0]]
                for at in cl:
                    if at is mn: continue
                    d = int((at.args[2] - mn.args[2]).cval())
                    t = P(mn)
                    for i in range(1, d + 1): t = t + subst(body, {n.id: mn.args[2] + i})
                    rep[at.id] = t
        if not rep: return q
        return replace_atoms(q, rep)

def index_args(a):
    if a.kind == 'SEL': return [a.args[1]]
    if a.kind == 'APP': return [y for y in a.args if isinstance(y, Poly)]
    if a.kind == 'PSUM': return [a.args[2]]
    if a.kind == 'ITE': return []
    return []
def split_div(b, s):
    """b = s*q + r where q collects the monomials of b divisible by the monomial s (integer coefficients)"""
    if len(s.d) != 1: return ZERO, b
    (sm, sc), = s.d.items()
    q = {}; r = {}
    inv = tuple((a, -e) for a, e in sm)
    for m, c in b.d.items():
        mm = mono_mul(m, inv)
        if all(e > 0 for a, e in mm):
            k = c / sc
            fl = k.numerator // k.denominator
            if fl: q[mm] = Fr(fl)
            if k - fl: r[m] = c - fl * sc
        else: r[m] = c
    return Poly(q), Poly(r)
def prefix_diff(n, lo, hi, body):
    d = (hi - lo).cval()
    if d is not None and d.denominator == 1 and -1 <= d <= 8:
        out = ZERO
        for i in range(int(d) + 1): out = out + subst(body, {n.id: lo + i})
        return out
    return P(mk_atom('PSUM', (n.id, body, hi), 'R')) - P(mk_atom('PSUM', (n.id, body, lo - 1), 'R'))
def symmetry(body, n):
    """R with body(n) == body(R - n), if it is a product of reads with indices n and R-n"""
    cand = set()
    (m, c), = body.d.items()
    for a, e in m:
        for off in index_args(ATOMS[a]):
            cc = coeff(off, n)
            if cc is None or not cc[0].d: continue
            for b, e2 in m:
                for off2 in index_args(ATOMS[b]):
                    c2 = coeff(off2, n)
                    if c2 is None or c2[0] != -cc[0]: continue
                    R = exact_div(c2[1] - cc[1], cc[0])
                    if R is not None: cand.add(R)
            if e == 2 or True: pass
    for R in cand:
        if subst(body, {n.id: R - P(n)}) == body: return R
    return None
def faul(e, lo, hi):
    n = hi - lo + 1
    if e == 0: return n
    if e == 1: return (hi + lo) * n * Fr(1, 2)
    def s2(m): return m * (m + 1) * (2 * m + 1) * Fr(1, 6)
    if e == 2: return s2(hi) - s2(lo - 1)
    def s3(m): return (m * (m + 1) * Fr(1, 2)) ** 2
    if e == 3: return s3(hi) - s3(lo - 1)
    raise ValueError('faulhaber')
def replace_atoms(q, rep):
    out = ZERO
    for m, c in q.d.items():
        t = P(c)
        for a, e in m:
            x = rep.get(a)
            if x is None: x = P(ATOMS[a])
            t = t * (x ** e if e > 0 else inverse(x) ** (-e))
        out = out + t
    return out
def replace_atom(q, aid, v):
    """deep replacement of an atom by a value"""
    memo = {}
    target = ATOMS[aid]
    def rp(p):
        out = ZERO
        for m, c in p.d.items():
            t = P(c)
            for a, e in m:
                x = ra(a)
                t = t * (x ** e if e > 0 else inverse(x) ** (-e))
            out = out + t
        return out
    def ra(a):
        if a == aid: return P(v)
        r = memo.get(a)
        if r is not None: return r
        at = ATOMS[a]
        if at.kind == 'VAR': r = P(at)
        else:
            args = tuple(rp(y) if isinstance(y, Poly) else rc(y) if isinstance(y, Cond) else y for y in at.args)
            if args == at.args: r = P(at)
            elif at.kind == 'SUM': r = mk_sum(ATOMS[args[0]], args[1], args[2], args[3])
            elif at.kind == 'ITE': r = ite(*args)
            elif at.kind == 'INV': r = inverse(args[0])
            else: r = P(mk_atom(at.kind, args, at.sort))
        memo[a] = r
        return r
    def rc(c):
        if c.k in ('le0', 'lt0', 'eq0'):
            p = rp(c.a[0])
            return c if p == c.a[0] else {'le0': le0, 'lt0': lt0, 'eq0': eq0}[c.k](p, c.a[1])
        if c.k == 'and': return And(*[rc(y) for y in c.a])
        if c.k == 'or': return Or(*[rc(y) for y in c.a])
        if c.k == 'not': return Not(rc(c.a[0]))
        return c
    return rp(q)
def subst_cond_atom(body, ia, truth, cond):
    """replace, everywhere in body, the ITE atom ia given that the picked condition is true/false"""
    kind, at = cond
    a = ia.args[0]
    # find the atomic condition object again inside a
    def repl(c):
        if c.k in ('and', 'or', 'not'):
            ys = [repl(y) for y in c.a]
            return {'and': And, 'or': Or}[c.k](*ys) if c.k != 'not' else Not(ys[0])
        if c is target: return TRUE if truth else FALSE
        if c is Not(target): return FALSE if truth else TRUE
        return c
    target = find_target(a, cond)
    memo = {}
    def rp(p):
        out = ZERO
        for m, c in p.d.items():
            t = P(c)
            for x, e in m:
                y = ra(x)
                t = t * (y ** e if e > 0 else inverse(y) ** (-e))
            out = out + t
        return out
    def ra(x):
        r = memo.get(x)
        if r is not None: return r
        an = ATOMS[x]
        if an.kind == 'ITE':
            r = ite(repl(an.args[0]), rp(an.args[1]), rp(an.args[2]))
        elif an.kind in ('VAR', 'SEL', 'SUM'): r = P(an)
        elif an.kind == 'INV': r = inverse(rp(an.args[0]))
        else: r = P(mk_atom(an.kind, tuple(rp(y) if isinstance(y, Poly) else y for y in an.args), an.sort))
        memo[x] = r
        return r
    return rp(body)
_ft = {}
def find_target(c, cond):
    """the first atomic condition (same traversal as Norm.pick)"""
    n = Norm(None)
    def go(c):
        if c.k in ('and', 'or', 'not'):
            for y in c.a:
                r = go(y)
                if r is not None: return r
            return None
        if c.k in ('eq0', 'le0') and c.a[1] == 'I':
            for w in c.vars():
                x = n.pick(c, ATOMS[w])
                if x == cond: return c
        return None
    return go(c)
