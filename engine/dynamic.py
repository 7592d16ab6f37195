"""Contract of local::sweep::dynamic (C05): one arbitrary iteration, every operator code."""
import re
from terms import *
import build
from symex import *
from prover import Prover
from normal import Norm
from iterate import Iteration, Done, unsigned_base
import record
def driver():
    return '''#include <cppad/cppad.hpp>
#include <cstddef>
using namespace CppAD; using namespace CppAD::local;
extern "C" {
long K_pv_length = offsetof(pod_vector<addr_t>, size_), K_pv_data = offsetof(pod_vector<addr_t>, data_), K_pv_size = sizeof(pod_vector<addr_t>);
long K_pm_length = offsetof(pod_vector_maybe<double>, length_), K_pm_data = offsetof(pod_vector_maybe<double>, data_);
long K_addr = sizeof(addr_t), K_opc = sizeof(opcode_t);
size_t k_numargdyn(op_code_dyn op) { return num_arg_dyn(op); }
void w_dynamic(pod_vector_maybe<double>& par_all, const CppAD::vector<double>& ind, const pod_vector<bool>& is_dyn, const pod_vector<addr_t>& d2p, const pod_vector<opcode_t>& op, const pod_vector<addr_t>& arg)
{ double z = 0; sweep::dynamic(par_all, ind, is_dyn, d2p, op, arg, z); }
long K_v_length = offsetof(CppAD::vector<double>, length_), K_v_data = offsetof(CppAD::vector<double>, data_);
}
'''
def load(): return build.ir(driver(), 'dynamic', extra=['-fno-access-control'])
class Dyn:
    def __init__(self, M):
        self.M = M; self.K = consts(M)
        self.dyn = record.enum_names('include/cppad/local/op_code_dyn.hpp', 'op_code_dyn')
        self.sem = record.dyn_semantics()
        self.cop = {v: k[len('Compare'):] for k, v in record.enum_names(record.COPFILE, 'CompareOp').items()}
    def numarg(self, code):
        E = Engine(self.M, Prover()); r = E.call(State(), '@k_numargdyn', [P(code)]); return int(r[0][1].cval())
    def setup(self, name):
        code = self.dyn[name]; K = self.K
        pr = Prover(); E = Engine(self.M, pr); self.E = E; self.pr = pr
        I = P(var('I')); n = P(var('n')); self.I = I
        A0 = app('ARG0', [I], 'I'); A1 = app('ARG0', [I + 1], 'I'); self.A0 = A0
        self.na = self.numarg(code)
        pr.axioms = [ge(I, 0), lt(I, n), ge(A0, 0), ge(A0, I * 0)]
        if name != 'atom_dyn': pr.axioms.append(eq(A1, A0 + self.na))
        st = State(); so = K['addr']
        def vec(nm, lenf, dataf, length):
            d = Ptr(nm + '.data', 0)
            st.mem[nm] = Obj(nm, nm, (), None, {'const': True})
            def rd(E, s, o, off, w, sort):
                if sort == 'P' and off.cval() == dataf: return d
                if off.cval() == lenf: return length
                raise Unsupported('field of %s at %s' % (nm, off))
            E.bases[nm] = rd
            st.mem[nm + '.data'] = Obj(nm + '.data', nm + '.data', (), None, {})
        v = self.vec = vec
        vec('par_all', K['pm_length'], K['pm_data'], P(var('npar')))
        vec('ind', K['v_length'], K['v_data'], P(var('nind')))
        vec('isdyn', K['pv_length'], K['pv_data'], P(var('npar')))
        vec('d2p', K['pv_length'], K['pv_data'], n)
        vec('op', K['pv_length'], K['pv_data'], n)
        vec('arg', K['pv_length'], K['pv_data'], P(var('narg')))
        E.bases['op.data'] = lambda E, s, o, off, w, sort: P(code) if E.same(s.pc, off, I * K['opc']) else (_ for _ in ()).throw(Unsupported('operator code at %s' % off))
        unsigned_base(E, 'd2p.data'); unsigned_base(E, 'arg.data')
        for x in ('op', 'd2p', 'arg', 'ind', 'isdyn'): st.mem[x + '.data'].meta['const'] = True
        def azm(E, st, a, ins, dem): return [(st, app('azmul', [E.num(E.load(st, a[0], ('fp', 'double'))), E.num(E.load(st, a[1], ('fp', 'double')))], 'R'))]
        def deval(E, st, a, ins, dem): return [(st, app('discrete', [E.num(a[0]), E.num(E.load(st, a[1], ('fp', 'double')))], 'R'))]
        E.contracts = {r'^(?:double )?CppAD::azmul\(double': azm, r'discrete_eval<double>|CppAD::discrete<double>::eval\(': deval}
        return E, pr, st, n
    def iteration(self, name, fixed=None):
        E, pr, st, n = self.setup(name)
        tgt = [f for f, d in self.M.dem.items() if re.search(r'local::sweep::dynamic<double', d) and f in self.M.funcs]
        if len(tgt) != 1: raise Unsupported('sweep::dynamic instances %d' % len(tgt))
        it = Iteration(E, tgt[0], self.I, {'i_dyn': (self.I, self.I + 1, 0), 'i_arg': (self.A0, app('ARG0', [self.I + 1], 'I'), 0)}, fixed=dict(fixed) if fixed is not None else None)
        it.rebase['par_all.data'] = 'PAR'
        it.havoc.add('par_all.data')
        E.loop_hook = it.hook
        # ARG0(0) = 0 and the loop starts at the first operator
        try: E.call(st, '@w_dynamic', [Ptr(x, 0) for x in ('par_all', 'ind', 'isdyn', 'd2p', 'op', 'arg')])
        except Done: pass
        if it.outs is None: raise Unsupported('loop over the dynamic parameters not found')
        return E, pr, it
    def check(self, name):
        """the iteration for operator `name` sets exactly the parameter it defines, to its definition"""
        _, _, it0 = self.iteration('sub_dyn')      # roles of the loop variables
        fixed = {p: r for p, r in it0.assign.items()}
        if sorted(set(fixed.values()) & {'i_dyn', 'i_arg'}) != ['i_arg', 'i_dyn']: raise Unsupported('roles of the loop variables')
        E, pr, it = self.iteration(name, fixed)
        K = self.K; I = self.I; A0 = self.A0; log = []
        start, outs = it.outs
        def arg(k): return sel('arg.data', (A0 + k) * K['addr'], 'I', K['addr'])
        def par(k): return sel('PAR', arg(k) * 8, 'R', 8)
        ip = sel('d2p.data', I * K['addr'], 'I', K['addr'])
        if name == 'ind_dyn': want = sel('ind.data', I * 8, 'R', 8)
        elif name == 'dis_dyn': want = app('discrete', [arg(0), par(1)], 'R')
        elif name == 'cond_exp_dyn': want = None
        elif name == 'zmul_dyn': want = app('azmul', [par(0), par(1)], 'R')
        elif name == 'result_dyn': want = 'none'
        else:
            n, f = self.sem[name]; want = f(*[par(k) for k in range(n)])
            if n != self.na: raise ObligationFailed('number of arguments of %s' % name)
        if not [1 for k, o in outs if k == 'back']: raise ObligationFailed('%s: the iteration does not complete' % name)
        for k, o in outs:
            if k != 'back': raise ObligationFailed('%s: the loop ends before the last dynamic parameter' % name, self.path(o.st))
            ob = o.st.mem['par_all.data']
            J = P(var('J')); s2 = o.st.fork(Not(eq(J, ip)), ge(J, 0))
            got = E.read_obj(s2, ob, J * 8, 8, 'R'); log.append('%s: no other parameter changes' % name)
            if got != sel('PAR', J * 8, 'R', 8) and not self.zero(s2, got - sel('PAR', J * 8, 'R', 8)): raise ObligationFailed(log[-1], str(got)[:300])
            got = E.read_obj(o.st, ob, ip * 8, 8, 'R'); log.append('%s: value of the parameter' % name)
            if isinstance(want, str): w = sel('PAR', ip * 8, 'R', 8)
            elif want is None:
                cands = []
                for cv, cn in sorted(self.cop.items()):
                    if cn == 'Ne': continue      # CondExp has no such comparison
                    s3 = o.st.fork(eq(arg(0), cv))
                    if not pr.feasible(s3.pc): continue
                    w = ite(record.CMP[cn](par(1) - par(2)), par(3), par(4))
                    log.append('%s: %s' % (log[1], cn)); self.eq(s3, got, w, log[-1])
                continue
            else: w = want
            self.eq(o.st, got, w, log[-1])
            log.append('%s: loop invariants preserved' % name)
        return sorted(set(log))
    def path(self, st): return ' and '.join(str(c) for c in st.pc)[:500]
    def zero(self, st, d): return Norm(self.pr).is_zero(d, st.pc)
    def eq(self, st, got, want, name):
        if got is UNDEF or not (got == want or self.zero(st, got - want)): raise ObligationFailed(name, 'is %s, required %s on %s' % (got, want, self.path(st)))
    def names(self): return [n for n in self.dyn if n in self.sem or n in ('ind_dyn', 'dis_dyn', 'cond_exp_dyn', 'result_dyn')]
def consts(M):
    K = {}
    for n, line in M.globals.items():
        m = re.search(r'@K_(\w+)$', n)
        if m: K[m.group(1)] = int(re.search(r'i64 (-?\d+)', line).group(1))
    return K
def run(M, name): return Dyn(M).check(name)
if __name__ == '__main__':
    import sys, time
    M = load(); D = Dyn(M)
    for n in D.names():
        if len(sys.argv) > 1 and n not in sys.argv[1:]: continue
        t = time.time()
        try: print('OK', n, len(run(M, n)), '%.1f' % (time.time() - t))
        except (ObligationFailed, Unsupported) as e: print('FAIL', n, type(e).__name__, str(e)[:900], '%.1f' % (time.time() - t))
