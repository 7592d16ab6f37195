"""Contracts of the operators that are not elementary functions: parameter, discrete, vector load and store (C01, C02, C03, C13)."""
import os
from terms import *
from symex import *
from fn import *
import build, record
def driver():
    return '''#include <cppad/cppad.hpp>
#include <cstddef>
using namespace CppAD; using namespace CppAD::local; using namespace CppAD::local::var_op;
typedef pod_vector<addr_t> VA; typedef pod_vector<bool> VB; typedef pod_vector<size_t> VS;
extern "C" {
long K_pv_size = offsetof(VS, size_), K_pv_data = offsetof(VS, data_), K_addr = sizeof(addr_t);
void w_load0(op_code_var op, size_t iz, size_t nv, const addr_t* arg, const double* par, size_t cap, double* t, const VB& isv, const VS& idx, VA& l2v)
{ load_forward_0(op, iz, nv, arg, nv, nv, par, cap, t, isv, idx, l2v); }
void w_loadn(op_code_var op, size_t iz, const addr_t* arg, size_t p, size_t q, size_t r, size_t cap, const VA& l2v, double* t) { load_forward_nonzero(op, iz, arg, p, q, r, cap, l2v, t); }
void w_loadr(op_code_var op, size_t iz, const addr_t* arg, const VA& l2v, size_t cap, size_t n, double* pa) { load_reverse(op, iz, arg, l2v, cap, n, pa); }
void w_store0(op_code_var op, const addr_t* arg, size_t nv, const double* par, size_t cap, const double* t, VB& isv, VS& idx) { store_forward_0(op, arg, nv, nv, par, cap, t, isv, idx); }
void w_par0(size_t iz, const addr_t* arg, const double* par, size_t np, size_t cap, double* t) { par_forward_0(iz, arg, np, par, cap, t); }
void w_parany(size_t p, size_t q, size_t iz, const addr_t* arg, const double* par, size_t np, size_t cap, double* t) { par_forward_any(p, q, iz, arg, np, par, cap, t); }
void w_pardir(size_t q, size_t r, size_t iz, const addr_t* arg, const double* par, size_t np, size_t cap, double* t) { par_forward_dir(q, r, iz, arg, np, par, cap, t); }
void w_dis(size_t p, size_t q, size_t r, size_t iz, const addr_t* arg, size_t cap, double* t) { dis_forward_dir(p, q, r, iz, arg, cap, t); }
void w_csumany(size_t p, size_t q, size_t iz, const addr_t* arg, size_t np, const double* par, size_t cap, double* t) { csum_forward_any(p, q, iz, arg, np, par, cap, t); }
void w_csumdir(size_t q, size_t r, size_t iz, const addr_t* arg, size_t np, const double* par, size_t cap, double* t) { csum_forward_dir(q, iz, arg, np, par, r, cap, t); }
void w_csumrev(size_t iz, const addr_t* arg, size_t n, double* pa) { csum_reverse(iz, arg, n, pa); }
void w_cexp0(size_t iz, const addr_t* arg, size_t np, const double* par, size_t cap, double* t) { cexp_forward_0(iz, arg, np, par, cap, t); }
void w_cexpany(size_t p, size_t q, size_t iz, const addr_t* arg, size_t np, const double* par, size_t cap, double* t) { cexp_forward_any(p, q, iz, arg, np, par, cap, t); }
void w_cexpdir(size_t q, size_t r, size_t iz, const addr_t* arg, size_t np, const double* par, size_t cap, double* t) { cexp_forward_dir(q, r, iz, arg, np, par, cap, t); }
void w_cexprev(size_t iz, const addr_t* arg, size_t np, const double* par, size_t cap, const double* t, size_t n, double* pa) { cexp_reverse(iz, arg, np, par, cap, t, n, pa); }
void w_compare(op_code_var op, const addr_t* arg, const double* par, size_t cap, const double* t, size_t i, size_t cnt, size_t* num, size_t* idx) { compare_forward_any(op, arg, par, cap, t, i, cnt, *num, *idx); }
}
'''
def load(): return build.ir(driver(), 'special', extra=['-fno-access-control'])
OPS = None
def ops():
    global OPS
    if OPS is None: OPS = record.enum_names('include/cppad/local/op_code_var.hpp', 'op_code_var')
    return OPS
def trunc(x): return app('fptoint', [x], 'I')
class O(Fn):
    def __init__(self, M, label):
        Fn.__init__(self, M, label); K = self.K
        self.cap, self.iz, self.p, self.q, self.r = [P(var(x)) for x in ('cap', 'i_z', 'p', 'q', 'r')]
        self.assume(ge(self.cap, 1), ge(self.iz, 1), ge(self.p, 0), ge(self.q, self.p), lt(self.q, self.cap), ge(self.r, 1))
        self.pr.scales = [self.cap]
        self.plain('arg', K['addr'], 'I', const=True); self.unsigned('arg'); self.plain('par', 8, 'R', const=True)
        def deval(E, st, a, ins, dem): return [(st, app('discrete', [E.num(a[0]), E.num(E.load(st, a[1], ('fp', 'double')))], 'R'))]
        self.E.contracts[r'discrete_eval<double>|CppAD::discrete<double>::eval\('] = deval
    def arg(self, k): return sel('arg', P(k) * self.K['addr'], 'I', self.K['addr'])
    def par(self, k): return sel('par', k * 8, 'R', 8)
    def pod(self, n, esize, const=False):
        K = self.K; d = self.plain(n + '.data', esize, 'I', const=const); self.unsigned(n + '.data'); size = P(var(n + '.size'))
        return self.obj(n, {K['pv_size']: size, K['pv_data']: d}, const=True)
    def at(self, n, k, esize): return sel(n + '.data', k * esize, 'I', esize)
    def T0(self, row, m=0, width=None): return sel('T', (row * (self.cap if width is None else width) + m) * 8, 'R', 8)
    def T(self, st, row, m=0, width=None): return self.read(st, Ptr('T', 0), (row * (self.cap if width is None else width) + m) * 8, 8, 'R')
    def taylor(self, const=False): return self.plain('T', 8, 'R', const=const)
    def same_cell(self, st, n, k, esize, what):
        self.eq(st, self.read(st, Ptr(n + '.data', 0), k * esize, esize, 'I'), self.at(n, k, esize), what)
    def frame_t(self, st, width=None, cells=None):
        """no cell of another row, no cell of row i_z outside `cells` (list of (low, high) ranges of m) changes"""
        w = self.cap if width is None else width
        j, m = P(fresh('j', 'I')), P(fresh('m', 'I'))
        for c in (lt(j, self.iz), gt(j, self.iz)):
            s2 = st.fork(c, ge(j, 0), ge(m, 0), lt(m, w))
            if self.pr.feasible(s2.pc): self.eq(s2, self.T(s2, j, m, w), self.T0(j, m, w), 'no other variable is modified')
        for lo, hi in cells or ():
            s2 = st.fork(ge(m, lo), le(m, hi), ge(m, 0), lt(m, w))
            if self.pr.feasible(s2.pc): self.eq(s2, self.T(s2, self.iz, m, w), self.T0(self.iz, m, w), 'no other coefficient of the result is modified')
def index_of(v, code):
    return v.par(v.arg(1)) if code in ('LdpOp', 'StppOp', 'StpvOp') else v.T0(v.arg(1))
def run(M, op, code=None):
    v = O(M, op + (' ' + code if code else '')); K = v.K
    if op == 'load0':
        isv = v.pod('isv', 1, const=True); idx = v.pod('idx', 8, const=True); l2v = v.pod('l2v', K['addr']); t = v.taylor()
        v.assume(ge(v.arg(0), 1), lt(v.arg(1), v.iz)); x = trunc(index_of(v, code)); v.assume(ge(x, 0))
        e = v.arg(0) + x; iy = v.at('idx', e, 8); var_ = v.at('isv', e, 1); v.assume(le(var_, 1), ge(var_, 0)); isvar = ge(var_, 1); v.assume(Or(Not(isvar), lt(iy, v.iz)))
        for st, ret in v.call('w_load0', [P(ops()[code]), v.iz, P(var('nv')), Ptr('arg', 0), Ptr('par', 0), v.cap, t, isv, idx, l2v]):
            for c, val, lv, nm in ((isvar, v.T0(iy), iy, 'a variable'), (Not(isvar), v.par(iy), ZERO, 'a parameter')):
                s2 = st.fork(c)
                if not v.pr.feasible(s2.pc): continue
                v.eq(s2, v.T(s2, v.iz), val, 'the result is the value of the element (%s) that the index selects' % nm)
                v.eq(s2, v.read(s2, Ptr('l2v.data', 0), v.arg(2) * K['addr'], K['addr'], 'I'), lv, 'the load is noted for the higher orders and reverse mode (%s)' % nm)
            v.frame_t(st, cells=[(ONE, v.cap - 1)])
            k = P(fresh('k', 'I'))
            s2 = st.fork(Not(eq(k, v.arg(2))), ge(k, 0)); v.same_cell(s2, 'l2v', k, K['addr'], 'no other load is changed')
    elif op == 'loadn':
        l2v = v.pod('l2v', K['addr'], const=True); t = v.taylor(); v.assume(ge(v.p, 1)); w = v.width = (v.cap - 1) * v.r + 1
        iy = v.at('l2v', v.arg(2), K['addr']); v.assume(lt(iy, v.iz), ge(iy, 0)); v.pr.scales = [v.r, w]
        k, l = P(fresh('k', 'I')), P(fresh('l', 'I'))
        for st, ret in v.call('w_loadn', [P(ops()[code]), v.iz, Ptr('arg', 0), v.p, v.q, v.r, v.cap, l2v, t]):
            m = (k - 1) * v.r + 1 + l
            for c, want, nm in ((ge(iy, 1), v.T0(iy, m, w), 'a variable'), (le(iy, 0), ZERO, 'a parameter')):
                s2 = st.fork(c, ge(k, v.p), le(k, v.q), ge(l, 0), lt(l, v.r))
                if v.pr.feasible(s2.pc): v.eq(s2, v.T(s2, v.iz, m, w), want, 'coefficients of the result are those of the element (%s) the load used at order zero' % nm)
            v.frame_t(st, w, cells=[(ZERO, (v.p - 1) * v.r), (v.q * v.r + 1, w - 1)])
    elif op == 'loadr':
        l2v = v.pod('l2v', K['addr'], const=True); t = v.taylor(); n = P(var('n')); v.assume(ge(n, 1), le(n, v.cap)); v.pr.scales = [n]
        iy = v.at('l2v', v.arg(2), K['addr']); v.assume(lt(iy, v.iz), ge(iy, 0)); k, j = P(fresh('k', 'I')), P(fresh('j', 'I'))
        for st, ret in v.call('w_loadr', [P(ops()[code]), v.iz, Ptr('arg', 0), l2v, v.cap, n, t]):
            for c in (ge(iy, 1), le(iy, 0)):
                s2 = st.fork(c, ge(k, 0), lt(k, n))
                if not v.pr.feasible(s2.pc): continue
                if c == ge(iy, 1): v.eq(s2, v.T(s2, iy, k, n), v.T0(iy, k, n) + v.T0(v.iz, k, n), 'the partials of the result are added to those of the element')
                for d in (lt(j, iy), gt(j, iy)) if c == ge(iy, 1) else (ge(j, 0),):
                    s3 = s2.fork(d, ge(j, 0))
                    if v.pr.feasible(s3.pc): v.eq(s3, v.T(s3, j, k, n), v.T0(j, k, n), 'partials of other variables are not modified')
    elif op == 'store0':
        isv = v.pod('isv', 1); idx = v.pod('idx', 8); t = v.taylor(const=True)
        v.assume(ge(v.arg(0), 1)); x = trunc(index_of(v, code)); v.assume(ge(x, 0)); e = v.arg(0) + x
        for st, ret in v.call('w_store0', [P(ops()[code]), Ptr('arg', 0), P(var('nv')), Ptr('par', 0), v.cap, t, isv, idx]):
            got = v.read(st, Ptr('isv.data', 0), e, 1, 'I')
            v.eq(st, got, ONE if code in ('StpvOp', 'StvvOp') else ZERO, 'the element is marked as variable or parameter as the value stored')
            v.eq(st, v.read(st, Ptr('idx.data', 0), e * 8, 8, 'I'), v.arg(2), 'the element refers to the value stored')
            k = P(fresh('k', 'I')); s2 = st.fork(Not(eq(k, e)), ge(k, 0))
            v.same_cell(s2, 'isv', k, 1, 'no other element of any vector changes'); v.same_cell(s2, 'idx', k, 8, 'no other element of any vector changes')
    elif op in ('par0', 'parany', 'pardir', 'dis'):
        t = v.taylor(); w = v.cap if op in ('par0', 'parany') else (v.cap - 1) * v.r + 1; v.pr.scales = [v.r, w] if op in ('pardir', 'dis') else [v.cap]
        A, PA, NP = Ptr('arg', 0), Ptr('par', 0), P(var('np'))
        if op == 'par0': args = ['w_par0', v.iz, A, PA, NP, v.cap, t]; v.p = v.q = ZERO
        elif op == 'parany': args = ['w_parany', v.p, v.q, v.iz, A, PA, NP, v.cap, t]
        elif op == 'pardir': v.assume(ge(v.q, 1)); args = ['w_pardir', v.q, v.r, v.iz, A, PA, NP, v.cap, t]; v.p = v.q
        else:
            if code == 'one direction': v.r = ONE; w = v.cap; v.pr.scales = [v.cap]
            else: v.assume(ge(v.p, 1))
            v.assume(lt(v.arg(1), v.iz)); args = ['w_dis', v.p, v.q, v.r, v.iz, A, v.cap, t]
        zero = v.par(v.arg(0)) if op != 'dis' else app('discrete', [v.arg(0), v.T0(v.arg(1), 0, w)], 'R')
        r = ONE if op in ('par0', 'parany') else v.r
        for st, ret in v.call(args[0], args[1:]):
            k, l = P(fresh('k', 'I')), P(fresh('l', 'I'))
            s2 = st.fork(le(v.p, 0)) if op != 'par0' else st
            if op != 'pardir' and v.pr.feasible(s2.pc): v.eq(s2, v.T(s2, v.iz, 0, w), zero, 'order zero is the value')
            if op != 'par0':
                s2 = st.fork(ge(k, 1), ge(k, v.p), le(k, v.q), ge(l, 0), lt(l, r))
                v.eq(s2, v.T(s2, v.iz, (k - 1) * r + 1 + l, w), ZERO, 'coefficients of order one and above are zero')
            s3 = st if op in ('par0', 'pardir') else st.fork(ge(v.p, 1))
            cells = [(v.q * r + 1, w - 1)]
            v.frame_t(st, w, cells=cells)
            if op == 'par0': continue
            m = P(fresh('m', 'I')); s4 = s3.fork(ge(m, 0), le(m, (v.p - 1) * r))
            if v.pr.feasible(s4.pc): v.eq(s4, v.T(s4, v.iz, m, w), v.T0(v.iz, m, w), 'lower orders of the result are not modified')
    elif op.startswith('csum'): csum(v, op)
    elif op.startswith('cexp'): cexp(v, op, *code.split())
    elif op == 'compare': compare(v, code)
    else: raise Unsupported(op)
    return v.done()
def csum(v, op):
    A, PA, NP = Ptr('arg', 0), Ptr('par', 0), P(var('np')); a = [v.arg(k) for k in range(5)]
    # index lists: [5, a1) added variables, [a1, a2) subtracted variables, [a2, a3) added parameters, [a3, a4) subtracted parameters
    v.assume(ge(a[1], 5), ge(a[2], a[1]), ge(a[3], a[2]), ge(a[4], a[3]))
    i = fresh('i', 'I'); I = P(i); k = P(fresh('k', 'I'))
    def total(lo, hi, f): return mk_sum(i, ZERO, hi - lo - 1, f(v.arg(lo + I)))
    def linear(m, w): return total(P(5), a[1], lambda x: v.T0(x, m, w)) - total(a[1], a[2], lambda x: v.T0(x, m, w))
    if op == 'csumrev':
        n = P(var('n')); v.assume(ge(n, 1), le(n, v.cap)); v.pr.scales = [n]; t = v.taylor(); j = P(fresh('j', 'I')); below(v)
        for st, ret in v.call('w_csumrev', [v.iz, A, n, t]):
            s2 = st.fork(ge(k, 0), lt(k, n), ge(j, 0), lt(j, v.iz))
            pz = v.T0(v.iz, k, n); cnt = total(P(5), a[1], lambda x: ite(eq(x, j), pz, 0)) + total(a[1], a[2], lambda x: ite(eq(x, j), -pz, 0))
            v.eq(s2, v.T(s2, j, k, n), v.T0(j, k, n) + cnt, 'the partials of the result are added to (subtracted from) those of every added (subtracted) variable')
            s2 = st.fork(ge(k, 0), lt(k, n), ge(j, v.iz)); v.eq(s2, v.T(s2, j, k, n), v.T0(j, k, n), 'partials of the result and of later variables are not modified')
        return
    below(v)
    t = v.taylor(); w = v.cap if op == 'csumany' else (v.cap - 1) * v.r + 1; v.pr.scales = [v.cap] if op == 'csumany' else [v.r, w]
    if op == 'csumany': args = ['w_csumany', v.p, v.q, v.iz, A, NP, PA, v.cap, t]
    else: v.assume(ge(v.q, 1)); args = ['w_csumdir', v.q, v.r, v.iz, A, NP, PA, v.cap, t]
    for st, ret in v.call(args[0], args[1:]):
        if op == 'csumany':
            s2 = st.fork(le(v.p, 0))
            if v.pr.feasible(s2.pc): v.eq(s2, v.T(s2, v.iz, 0, w), v.par(a[0]) + total(a[2], a[3], v.par) - total(a[3], a[4], v.par) + linear(ZERO, w), 'order zero is the sum of the terms')
            s2 = st.fork(ge(k, 1), ge(k, v.p), le(k, v.q)); v.eq(s2, v.T(s2, v.iz, k, w), linear(k, w), 'every order is the sum of the orders of the terms')
            v.frame_t(st, w, cells=[(ZERO, v.p - 1), (v.q + 1, w - 1)])
        else:
            l = P(fresh('l', 'I')); m = (v.q - 1) * v.r + 1 + l; s2 = st.fork(ge(l, 0), lt(l, v.r))
            v.eq(s2, v.T(s2, v.iz, m, w), linear(m, w), 'every direction is the sum of that direction of the terms')
            v.frame_t(st, w, cells=[(ZERO, (v.q - 1) * v.r), (v.q * v.r + 1, w - 1)])
def below(v):
    """arguments are nonnegative; the arguments that are indices of variables precede the result"""
    K = v.K['addr']; v.E.bases.pop('arg', None)
    def facts(off, x, holds):
        out = [ge(x, 0)]
        if off.cval() is None and holds(And(ge(off, 5 * K), lt(off, v.arg(2) * K))): out.append(lt(x, v.iz))
        return out
    v.pr.triggers['arg'] = facts
def cexp(v, op, cop, flag):
    flag = int(flag); K = v.K
    cops = record.enum_names(record.COPFILE, 'CompareOp'); code = P(cops['Compare' + cop])
    def rd(E, s, o, off, w, sort):
        c = off.cval()
        if c == 0: return code
        if c == K['addr']: return P(flag)
        x = sel('arg', off, sort, w)
        if ge(x, 0) not in E.pr.axioms: E.pr.axioms.append(ge(x, 0))
        return x
    v.E.bases['arg'] = rd
    A, PA, NP = Ptr('arg', 0), Ptr('par', 0), P(var('np'))
    isv = [bool(flag >> b & 1) for b in range(4)]
    for b in range(4):
        if isv[b]: v.assume(lt(v.arg(2 + b), v.iz))
    w = v.cap if op != 'cexpdir' else (v.cap - 1) * v.r + 1; v.pr.scales = [v.cap] if op != 'cexpdir' else [v.r, w]
    if op == 'cexprev':
        n = P(var('n')); v.assume(ge(n, 1), le(n, v.cap)); v.pr.scales = [n, v.cap]
        t = v.taylor(const=True); pa = v.plain('Q', 8, 'R')
    else: t = v.taylor()
    def val(b): return v.T0(v.arg(2 + b), 0, w) if isv[b] else v.par(v.arg(2 + b))
    cond = record.CMP[cop](val(0) - val(1)); k, j = P(fresh('k', 'I')), P(fresh('j', 'I'))
    def coef(b, m): return v.T0(v.arg(2 + b), m, w) if isv[b] else ZERO
    if op == 'cexprev':
        def q0(row): return sel('Q', (row * n + k) * 8, 'R', 8)
        for st, ret in v.call('w_cexprev', [v.iz, A, NP, PA, v.cap, t, n, pa]):
            s2 = st.fork(ge(k, 0), lt(k, n), ge(j, 0)); got = v.read(s2, pa, (j * n + k) * 8, 8, 'R')
            for c, b in ((cond, 2), (Not(cond), 3)):
                for h, add in ((eq(j, v.arg(2 + b)), 1), (lt(j, v.arg(2 + b)), 0), (gt(j, v.arg(2 + b)), 0)) if isv[b] else ((TRUE, 0),):
                    s3 = s2.fork(c, h)
                    if v.pr.feasible(s3.pc): v.eq(s3, v.read(s3, pa, (j * n + k) * 8, 8, 'R'), q0(j) + (q0(v.iz) if add else ZERO), 'the partials of the result are added to those of the operand that is selected and to no other')
        return
    if op == 'cexp0': args = ['w_cexp0', v.iz, A, NP, PA, v.cap, t]; v.p = v.q = ZERO
    elif op == 'cexpany': args = ['w_cexpany', v.p, v.q, v.iz, A, NP, PA, v.cap, t]
    else: v.assume(ge(v.q, 1)); args = ['w_cexpdir', v.q, v.r, v.iz, A, NP, PA, v.cap, t]
    for st, ret in v.call(args[0], args[1:]):
        for c, b in ((cond, 2), (Not(cond), 3)):
            if op != 'cexpdir':
                s2 = st.fork(c, le(v.p, 0)) if op == 'cexpany' else st.fork(c)
                if v.pr.feasible(s2.pc): v.eq(s2, v.T(s2, v.iz, 0, w), val(b), 'the value is that of the operand selected by the comparison at order zero')
            if op == 'cexpany': s2 = st.fork(c, ge(k, 1), ge(k, v.p), le(k, v.q)); m = k
            elif op == 'cexpdir': s2 = st.fork(c, ge(k, 0), lt(k, v.r)); m = (v.q - 1) * v.r + 1 + k
            else: continue
            if v.pr.feasible(s2.pc): v.eq(s2, v.T(s2, v.iz, m, w), coef(b, m), 'the coefficients are those of the operand selected by the comparison at order zero')
        if op == 'cexpdir': v.frame_t(st, w, cells=[(ZERO, (v.q - 1) * v.r), (v.q * v.r + 1, w - 1)])
        else: v.frame_t(st, w, cells=[(ZERO, v.p - 1), (v.q + 1, w - 1)])
REC = {'Eq': lambda d: eq0(d, 'R'), 'Ne': lambda d: Not(eq0(d, 'R')), 'Le': lambda d: le0(d, 'R'), 'Lt': lambda d: lt0(d, 'R')}
def compare(v, name):
    """the operator asserts a relation that was true while recording; a change is counted exactly when it is false now"""
    rel, kx, ky = name[:2], name[2], name[3]
    t = v.taylor(const=True); num, idx = v.plain('num', 8, 'I'), v.plain('idx', 8, 'I')
    x = v.T0(v.arg(0)) if kx == 'v' else v.par(v.arg(0)); y = v.T0(v.arg(1)) if ky == 'v' else v.par(v.arg(1))
    n0, i0 = sel('num', ZERO, 'I', 8), sel('idx', ZERO, 'I', 8); cnt, me = P(var('count')), P(var('me')); v.assume(ge(n0, 0), ge(cnt, 1))
    for st, ret in v.call('w_compare', [P(ops()[name + 'Op']), Ptr('arg', 0), Ptr('par', 0), v.cap, t, me, cnt, num, idx]):
        for c, d in ((REC[rel](x - y), 0), (Not(REC[rel](x - y)), 1)):
            s2 = st.fork(c)
            if not v.pr.feasible(s2.pc): continue
            v.eq(s2, v.read(s2, num, ZERO, 8, 'I'), n0 + d, 'a change is counted exactly when the recorded relation is false')
            for e, want in ((eq(n0 + d, cnt), me), (Not(eq(n0 + d, cnt)), i0)) if d else ((TRUE, i0),):
                s3 = s2.fork(e)
                if v.pr.feasible(s3.pc): v.eq(s3, v.read(s3, idx, ZERO, 8, 'I'), want, 'the operator index is noted exactly at the requested change')
def tasks13():
    return [(o, c) for o in ('load0', 'loadn', 'loadr') for c in ('LdpOp', 'LdvOp')] + [('store0', c) for c in ('StppOp', 'StpvOp', 'StvpOp', 'StvvOp')]
def flags(): return ['%s %d' % (c, f) for c in ('Lt', 'Le', 'Eq', 'Ge', 'Gt') for f in range(1, 16)]
def tasks12(): return [('compare', r + k) for r in ('Eq', 'Ne', 'Le', 'Lt') for k in ('pp', 'pv', 'vp', 'vv') if r + k + 'Op' in ops()] + [(o, f) for o in ('cexp0', 'cexpany') for f in flags()]
def tasks01(): return [('par0', None), ('parany', None), ('dis', 'one direction'), ('csumany', None)] + [(o, f) for o in ('cexp0', 'cexpany') for f in flags()] + [(o, c) for o in ('load0', 'loadn') for c in ('LdpOp', 'LdvOp')]
def tasks02(): return [('pardir', None), ('dis', 'order one and above'), ('csumdir', None)] + [('cexpdir', f) for f in flags()] + [('loadn', c) for c in ('LdpOp', 'LdvOp')]
def tasks03(): return [('csumrev', None)] + [('cexprev', f) for f in flags()] + [('loadr', c) for c in ('LdpOp', 'LdvOp')]
def add(ctx, ts):
    M = ctx.module_of(load, 'special')
    if M is not None:
        for op, code in ts: ctx.task('var_op %s%s' % (op, ' ' + code if code else ''), run, M, op, code)
if __name__ == '__main__':
    import sys, time
    M = load()
    for t in dict.fromkeys(tasks13() + tasks01() + tasks02() + tasks03() + tasks12()):
        if len(sys.argv) > 1 and t[0] not in sys.argv[1:]: continue
        t0 = time.time()
        try: print('OK', t, len(run(M, *t)), '%.1f' % (time.time() - t0))
        except (ObligationFailed, Unsupported) as e: print('FAIL', t, type(e).__name__, str(e)[:900], '%.1f' % (time.time() - t0))
