"""C17: contracts of Poly, the integer power, LuSolve (over LuFactor and LuInvert by contract); LuInvert and LuFactor for small sizes."""
import itertools
from terms import *
from symex import *
from fn import *
import build
def driver():
    return '''#include <cppad/cppad.hpp>
#include <cstddef>
#include <new>
using namespace CppAD; typedef CppAD::vector<double> DV; typedef CppAD::vector<size_t> SV;
extern "C" {
long K_v_len = offsetof(DV, length_), K_v_cap = offsetof(DV, capacity_), K_v_data = offsetof(DV, data_);
double w_poly(size_t k, const DV& a, const double& z) { return Poly(k, a, z); }
double w_pow(const double& x, const int& n) { return CppAD::pow<double>(x, n); }
void w_invert(const SV& ip, const SV& jp, const DV& LU, DV& B) { LuInvert(ip, jp, LU, B); }
int w_factor(SV& ip, SV& jp, DV& LU) { return LuFactor(ip, jp, LU); }
}
'''
def load(): return build.ir(driver(), 'numeric', extra=['-fno-access-control'])
class N(Fn):
    def __init__(self, M, label):
        Fn.__init__(self, M, label); self.V = {k: self.K['v_' + k] for k in ('len', 'cap', 'data')}
        self.E.contracts[r'CheckSimpleVector'] = lambda E, st, a, i, d: [(st, None)]; self.E.contracts[r'CheckNumericType'] = lambda E, st, a, i, d: [(st, None)]
    def vec(self, n, L, const=False, sort='R'):
        cap = P(var(n + '.cap')); self.assume(ge(cap, 1), ge(cap, L))
        b = self.block(n + '.data', 8, sort, cap * 8, const); return self.obj(n, {self.V['len']: L, self.V['cap']: cap, self.V['data']: b}, const)
def facts_fact(v):
    """factorial as a function with its unfolding equations at the needed places"""
    return lambda n: app('fact', [n], 'R')
def run_poly0(M):
    v = N(M, 'Poly, value'); E = v.E; d = P(var('d')); v.assume(ge(d, 0)); a = v.vec('a', d + 1, True); z = P(var('z', 'R'))
    v.plain('z', 8, 'R', True); E.bases['z'] = lambda EE, s, o, off, w, sort: z
    S = lambda i: app('horner', [i], 'R')          # sum of a[j] z^(j - i) over j >= i
    A = lambda i: sel('a.data', i * 8, 'R', 8)
    def zero(st, p, extra): return Norm(v.pr).is_zero(p, st.pc + extra)
    def hook(EE, st, env, f, L, prev):
        if 'Poly' not in M.dem.get(f.name, f.name): return None
        H, init = EE.loop_entry(st, env, f, L, prev)
        ints = [ph for ph in H.phis if ph.ty[0] == 'int']; fps = [ph for ph in H.phis if ph.ty[0] == 'fp']
        if len(ints) != 1 or len(fps) != 1 or len(H.phis) != 2: return None
        pi, ps = ints[0], fps[0]; i0 = init[pi.res]; cnt = None
        for off in (ZERO, ONE):        # the accumulated value is S(i + off); or the counter runs upwards
            if EE.same(st.pc, i0 + off, d): cnt = lambda i, off=off: i + off; break
        if cnt is None: raise Unsupported('loop counter of Poly')
        if not zero(st, init[ps.res] - A(d), ()): raise Unsupported('accumulator of Poly')
        i = P(fresh('i', 'I')); e1 = dict(env); e1[pi.res] = i; e1[ps.res] = S(cnt(i)); out = []
        s1 = st.fork(ge(cnt(i), 0), le(cnt(i), d))
        for o in EE.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header):
            if not v.pr.feasible(o.st.pc): continue
            if o.kind == 'edge' and o.data[1] == L.header:
                g = {ph.res: EE.coerce(EE.const([w for w, pb in ph.a if pb == o.data[0]][0], ph.ty, o.st, o.env), ph.ty) for ph in H.phis}
                v.holds(o.st, eq(g[pi.res], i - 1), 'the coefficients are visited one by one'); v.holds(o.st, ge(cnt(g[pi.res]), 0), 'only coefficients of the polynomial are used')
                j = cnt(g[pi.res]); v.eq(o.st, g[ps.res], S(j + 1) * z + A(j), 'invariant: the sum of the terms so far')
            elif o.kind == 'edge': out.append((o.st, o.env, o.data[0], o.data[1]))
            else: out.append((o.st, o.env, o.data, None))
        return out
    E.loop_hook = hook
    for st, r in v.call('w_poly', [ZERO, a, Ptr('z', 0)]):
        if v.pr.prove(st.pc, eq(d, 0)) and v.pr.prove(st.pc, FALSE) is False and Norm(v.pr).is_zero(P(r) - A(ZERO), st.pc): v.name('value of the polynomial'); continue
        ok = isinstance(r, Poly) and Norm(v.pr).is_zero(subst_app(r, d) - S(ZERO), st.pc)
        v.true(ok or fold(v, st, r, S), 'value of the polynomial', '%s on %s' % (r, v.path(st)))
    return v.done()
def arg_of(p, f):
    if not isinstance(p, Poly) or len(p.d) != 1: return None
    (m, c), = p.d.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1: return None
    at = ATOMS[m[0][0]]
    return at.args[1] if at.kind == 'APP' and at.args[0] == f else None
def subst_app(r, d): return r
def fold(v, st, r, S):
    """r is S(i) with i == 0 on this path"""
    if not isinstance(r, Poly) or len(r.d) != 1: return False
    (m, c), = r.d.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1: return False
    at = ATOMS[m[0][0]]
    return at.kind == 'APP' and at.args[0] == 'horner' and v.pr.prove(st.pc, eq(at.args[1], 0))
def run_polyk(M):
    v = N(M, 'Poly, derivative'); E = v.E; d, k = P(var('d')), P(var('k')); v.assume(ge(d, 0), ge(k, 1)); a = v.vec('a', d + 1, True); z = P(var('z', 'R'))
    v.plain('z', 8, 'R', True); E.bases['z'] = lambda EE, s, o, off, w, sort: z
    A = lambda i: sel('a.data', i * 8, 'R', 8); F = lambda n: app('fact', [n], 'R')
    top = [0]; res = P(var('value', 'R')); seen = []
    def poly(EE, st, args, ins, dem):
        if top[0] == 0: top[0] = 1; return NotImplemented
        kk, b, zz = args; v.holds(st, eq(kk, 0), 'the derivative is the value of another polynomial')
        L = EE.read_obj(st, st.mem[b.obj], b.off + v.V['len'], 8, 'I'); v.eq(st, L, d - k + 1, 'degree of the derivative')
        v.eq(st, EE.read_obj(st, st.mem[zz.obj], zz.off, 8, 'R'), z, 'the derivative is evaluated at the point')
        J = P(fresh('J', 'I')); s2 = st.fork(ge(J, 0), lt(J, d - k + 1)); dp = EE.read_obj(st, st.mem[b.obj], b.off + v.V['data'], 8, 'P')
        v.eq(s2, v.read(s2, dp, J * 8, 8, 'R'), A(J + k) * F(J + k) * inv(F(J)), 'coefficient of the derivative is a[j + k] (j + k)! / j!')
        seen.append(1); return res
    E.contracts = {r'\bPoly<': poly, **E.contracts}
    def hook(EE, st, env, f, L, prev):
        if 'Poly' not in M.dem.get(f.name, f.name): return None
        H, init = EE.loop_entry(st, env, f, L, prev)
        ints = [ph for ph in H.phis if ph.ty[0] == 'int']; fps = [ph for ph in H.phis if ph.ty[0] == 'fp']
        if len(ints) != 1 or len(fps) != 1 or len(H.phis) != 2: return None
        pi, ps = ints[0], fps[0]; i0 = init[pi.res]; i = P(fresh('i', 'I')); e1 = dict(env); e1[pi.res] = i; out = []
        writes = any(x.op == 'store' for b in L.body for x in f.blocks[b].ins) and 'i8' not in ''
        second = EE.same(st.pc, i0, k)
        if second and not (EE.same(st.pc, i0, P(2)) and not writes):
            inv0, form, lo, hi = F(k - 1), (lambda i: F(i - 1) * inv(F(i - k))), k, d + 1
            # 0! = 1
            w = arg_of(init[ps.res], 'fact'); n1 = k - 1
            v.true(v.pr.prove(st.pc, Or(eq(w, n1), And(eq(w, 1), eq(n1, 0)))) if w is not None else (v.pr.prove(st.pc, And(ge(n1, 0), le(n1, 1))) and Norm(v.pr).is_zero(init[ps.res] - 1, st.pc)), 'factor is (k - 1)! before the coefficients', '%s on %s' % (init[ps.res], v.path(st)))
        elif EE.same(st.pc, i0, P(2)):
            form, lo, hi = (lambda i: F(i - 1)), P(2), None
            v.true(Norm(v.pr).is_zero(init[ps.res] - 1, st.pc), 'factor starts with one', str(init[ps.res]))
        else: return None
        e1[ps.res] = form(i); s1 = st.fork(ge(i, lo))
        rng = (lambda i: le(i, hi)) if hi is not None else (lambda i: Or(le(i, k), eq(i, 2)))
        s1 = s1.fork(rng(i))
        blk = None
        if hi is not None:
            blk = [n for n in s1.mem if n in s1.ghost['live'] and n != 'a.data']
            if len(blk) != 1: raise Unsupported('coefficient vector')
            blk = blk[0]; m = fresh('m', 'I'); ob = s1.mem[blk]
            q = Upd('pt', P(m) * 8, A(P(m) + k) * F(P(m) + k) * inv(F(P(m))), 8, 'R', ((m, i - k),)); s1.mem[blk] = ob.with_upd(q)
        n0 = {n: len(o.upds) for n, o in s1.mem.items()}
        for o in EE.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header):
            if not v.pr.feasible(o.st.pc): continue
            if o.kind != 'edge': raise Unsupported('return in the loop')
            if o.data[1] == L.header:
                g = {ph.res: EE.coerce(EE.const([w for w, pb in ph.a if pb == o.data[0]][0], ph.ty, o.st, o.env), ph.ty) for ph in H.phis}
                if not EE.same(o.st.pc, g[pi.res], i + 1): raise Unsupported('loop counter of Poly')
                v.holds(o.st, rng(i + 1), 'invariant: range of the counter')
                # i! = i (i - 1)!  and  (i - k + 1)! = (i - k + 1) (i - k)!
                un = lambda p: unfold(p, F, [(i, i - 1), (i - k + 1, i - k)])
                v.true(Norm(v.pr).is_zero(un(P(g[ps.res])) - un(form(i + 1)), o.st.pc), 'invariant: factor', '%s, required %s' % (g[ps.res], form(i + 1)))
                if blk is not None:
                    x = P(EE.read_obj(o.st, o.st.mem[blk], (i - k) * 8, 8, 'R'))
                    v.true(Norm(v.pr).is_zero(un(x) - un(A(i) * F(i) * inv(F(i - k))), o.st.pc), 'the coefficient is set', str(x))
                    new = o.st.mem[blk].upds[n0[blk]:]; v.true(all(u.kind == 'pt' and not u.vars and EE.same(o.st.pc, u.off, (i - k) * 8) for u in new), 'only this coefficient changes', str([str(u.off) for u in new]))
            else: out.append((o.st, o.env, o.data[0], o.data[1]))
        return out
    E.loop_hook = hook
    outs = v.call('w_poly', [k, a, Ptr('z', 0)]) if True else None
    for st, r in outs:
        if v.pr.prove(st.pc, gt(k, d)): v.eq(st, r, ZERO, 'derivatives beyond the degree are zero')
        else: v.eq(st, r, res, 'the value of the derivative polynomial is returned')
    v.true(seen, 'the derivative polynomial is evaluated')
    return v.done()
def inv(p):
    """1 / p for a single atom"""
    (m, c), = p.d.items(); return Poly({tuple((a, -e) for a, e in m): 1 / c})
def unfold(p, F, rules):
    for n, m in rules:
        at = list(F(n).atoms())[0]; p = replace(p, at, n * F(m))
    return p
def replace(p, at, val):
    """substitutes an atom by a product (also with negative exponents)"""
    r = ZERO
    for m, c in p.d.items():
        t = Poly({tuple((a, e) for a, e in m if a != at): c})
        for a, e in m:
            if a == at:
                if e > 0: t = t * val ** e if hasattr(val, '__pow__') else pw(t, val, e)
                else: t = div_by(t, val, -e)
        r = r + t
    return r
def pw(t, v, e):
    for _ in range(e): t = t * v
    return t
def div_by(t, v, e):
    for _ in range(e): t = t / v
    return t
def run_pow(M):
    """pow(x, n) by its own contract on smaller exponents: the result is x to the power n"""
    v = N(M, 'pow(Type, int)'); E = v.E; n = P(var('n')); x = P(var('x', 'R')); xa = list(x.atoms())[0]
    v.plain('x', 8, 'R', True); E.bases['x'] = lambda EE, s, o, off, w, sort: x
    v.plain('n', 4, 'I', True); E.bases['n'] = lambda EE, s, o, off, w, sort: n
    v.assume(gt(n, -2 ** 31), lt(n, 2 ** 31)); top = [0]
    def expo(p):
        """exponent of x when p is a power of x"""
        if not isinstance(p, Poly) or len(p.d) != 1: return None
        (m, c), = p.d.items()
        if c != 1: return None
        t = ZERO
        for a, e in m:
            if a == xa: t = t + e
            elif ATOMS[a].kind == 'APP' and ATOMS[a].args[0] == 'xpow': t = t + e * ATOMS[a].args[1]
            else: return None
        return t
    def rec(EE, st, a, ins, dem):
        if top[0] == 0: top[0] = 1; return NotImplemented
        b = EE.read_obj(st, st.mem[a[0].obj], a[0].off, 8, 'R'); m = EE.read_obj(st, st.mem[a[1].obj], a[1].off, 4, 'I'); e = expo(b)
        if e is None or e.cval() is None: raise Unsupported('base of the recursive call')
        neg = v.pr.prove(st.pc, lt(n, 0)); pos = v.pr.prove(st.pc, ge(n, 0))
        less = And(ge(m, 0), Or(lt(n, 0), lt(m, n)))
        v.holds(st, less, 'the recursion ends')
        return app('xpow', [e * m], 'R')
    E.contracts = {r'CppAD::pow<double>\(double const&, int const&\)': rec, **E.contracts}
    for st, r in v.call('w_pow', [Ptr('x', 0), Ptr('n', 0)]):
        e = expo(P(r)) if isinstance(r, Poly) else None
        if e is None: raise ObligationFailed(v.name('x to the power n'), 'is %s on %s' % (r, v.path(st)))
        v.holds(st, eq(e, n), 'x to the power n')
    return v.done()
def perms(n): return list(itertools.permutations(range(n)))
def run_invert(M, n, m, ipv, jpv):
    """LuInvert of concrete size and order, arbitrary real entries: the result solves the equations"""
    v = N(M, 'LuInvert n=%d m=%d rows %s columns %s' % (n, m, ipv, jpv)); E = v.E; E.max_unroll = 12
    for nm, pv in (('ip', ipv), ('jp', jpv)):
        v.vec(nm, P(n), True, 'I'); E.bases[nm + '.data'] = lambda EE, s, o, off, w, sort, pv=pv: P(pv[int(off.cval()) // 8])
    v.vec('LU', P(n * n), True); v.vec('B', P(n * m))
    lu = lambda i, j: sel('LU.data', P(8 * (ipv[i] * n + jpv[j])), 'R', 8); b = lambda i, k: sel('B.data', P(8 * (i * m + k)), 'R', 8)
    for i in range(n): v.assume(Not(eq0(lu(i, i), 'R')))
    for st, r in v.call('w_invert', [Ptr(x, 0) for x in ('ip', 'jp', 'LU', 'B')]):
        x = lambda i, k: v.read(st, v.field(st, 'B', v.V['data'], 'P'), P(8 * (i * m + k)), 8, 'R')
        for k in range(m):
            y = [sum((lu(q, j) * x(jpv[j], k) for j in range(q + 1, n)), x(jpv[q], k)) for q in range(n)]     # U x, unit upper triangular
            for i in range(n): v.eq(st, sum((lu(i, q) * y[q] for q in range(i + 1)), ZERO), b(ipv[i], k), 'L U x = b')
    return v.done()
def run_factor(M, n):
    """LuFactor of concrete size, arbitrary real entries: the factors multiply to the permuted matrix, the sign is that of the permutations"""
    v = N(M, 'LuFactor n=%d' % n); E = v.E; E.max_unroll = 12
    v.vec('ip', P(n), False, 'I'); v.vec('jp', P(n), False, 'I'); v.vec('LU', P(n * n))
    E.loop_hook = lambda EE, st, env, f, L, prev: EE.try_unroll(st, env, f, L, prev, decided_only=False)
    A = lambda i, j: sel('LU.data', P(8 * (i * n + j)), 'R', 8); nz = 0
    for st, r in v.call('w_factor', [Ptr(x, 0) for x in ('ip', 'jp', 'LU')]):
        rd = lambda nm, k, s: v.read(st, v.field(st, nm, v.V['data'], 'P'), P(8 * k), 8, s)
        ip = [rd('ip', k, 'I').cval() for k in range(n)]; jp = [rd('jp', k, 'I').cval() for k in range(n)]
        for x in (ip, jp): v.true(None not in x and sorted(int(y) for y in x) == list(range(n)), 'the orders are permutations', str(x))
        ip = [int(x) for x in ip]; jp = [int(x) for x in jp]
        if r == ZERO: continue
        nz += 1
        par = lambda p: (-1) ** sum(p[i] > p[j] for i in range(n) for j in range(i + 1, n))
        v.eq(st, r, P(par(ip) * par(jp)), 'the sign is that of the permutations')
        lu = lambda i, j: rd('LU', ip[i] * n + jp[j], 'R')
        for i in range(n):
            v.holds(st, Not(eq0(lu(i, i), 'R')), 'the pivots are not zero')
            for j in range(n):
                t = ZERO
                for q in range(min(i, j) + 1): t = t + lu(i, q) * (ONE if q == j else lu(q, j))
                v.eq(st, t, A(ip[i], jp[j]), 'the product of the factors is the permuted matrix')
    v.true(nz, 'some matrix is factored')
    return v.done()
def tasks():
    r = []
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)):
        for a in perms(n):
            for b in perms(n): r.append((n, m, a, b))
    return r
if __name__ == '__main__':
    import sys, time
    M = load()
    for nm, fn, args in [('fac', run_factor, (1,)), ('fac', run_factor, (2,)), ('poly0', run_poly0, ()), ('polyk', run_polyk, ()), ('pow', run_pow, ())] + [('inv', run_invert, t) for t in tasks()]:
        if len(sys.argv) > 1 and nm not in sys.argv[1:]: continue
        t0 = time.time()
        try: print('OK', nm, args, len(fn(M, *args)), '%.1f' % (time.time() - t0))
        except (ObligationFailed, Unsupported) as e: print('FAIL', nm, args, type(e).__name__, str(e)[:700], '%.1f' % (time.time() - t0))
