"""Contracts of the recording operations on AD<double> (C04, C12).

State: operands are arbitrary AD objects, the tape is present or absent.  The recorder functions are used by contract
(ghost tape); the recorder bodies are verified in recbody.py.  Post-condition of an operation on each path:
  value_ of the result is the operation of the operand values, and the denotation of the result in every later
  environment (values of the variables and parameters already on the tape) is the operation of the operand denotations."""
import re, os, math
from terms import *
import build
from symex import *
from normal import Norm
from prover import Prover

UNARY = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cos', 'cosh', 'erf', 'erfc', 'exp', 'expm1', 'log1p', 'log', 'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'abs', 'fabs', 'sign', 'log10', 'neg', 'plus']
BIN = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
def driver():
    s = ['#include <cppad/cppad.hpp>', '#include <cstddef>', 'using namespace CppAD; typedef AD<double> A;',
         'extern "C" {',
         'long K_value = offsetof(A, value_), K_id = offsetof(A, tape_id_), K_addr = offsetof(A, taddr_), K_type = offsetof(A, ad_type_), K_size = sizeof(A), K_tid = offsetof(local::ADTape<double>, id_);',
         'long K_sid = sizeof(tape_id_t), K_saddr = sizeof(addr_t), K_stype = sizeof(ad_type_enum);',
         'long K_constant = constant_enum, K_dynamic = dynamic_enum, K_variable = variable_enum, K_tidsize = sizeof(tape_id_t);',
         'size_t k_numarg(local::op_code_var op) { return local::NumArg(op); }', 'size_t k_numres(local::op_code_var op) { return local::NumRes(op); }',
         'size_t k_numargdyn(local::op_code_dyn op) { return local::num_arg_dyn(op); }',
         'long K_identical_zero = identical_zero_enum;']
    for n, o in BIN.items():
        s.append('void w_%s(A* r, const A* a, const A* b) { *r = *a %s *b; }' % (n, o))
        s.append('void w_%s_eq(A* r, const A* a, const A* b) { *r %s= *b; }' % (n, o))
        s.append('void w_%s_d(A* r, const A* a, double b) { *r = *a %s b; }' % (n, o))
        s.append('void w_d_%s(A* r, double a, const A* b) { *r = a %s *b; }' % (n, o))
        s.append('void w_%s_eq_d(A* r, const A* a, double b) { *r %s= b; }' % (n, o))
    for n in ('pow', 'azmul'):
        s.append('void w_%s(A* r, const A* a, const A* b) { *r = %s(*a, *b); }' % (n, n))
    s.append('void w_pow_d(A* r, const A* a, double b) { *r = pow(*a, b); } void w_d_pow(A* r, double a, const A* b) { *r = pow(a, *b); }')
    for n in UNARY:
        e = {'neg': '-*a', 'plus': '+*a'}.get(n, 'CppAD::%s(*a)' % n)
        s.append('void w_%s(A* r, const A* a) { *r = %s; }' % (n, e))
    s.append('void w_copy(A* r, const A* a) { *r = *a; }')
    s.append('void w_ctor(A* r, const A* a) { A t(*a); *r = t; }')
    s.append('void w_set(A* r, double a) { *r = a; }')
    s.append('void w_var2par(A* r, const A* a) { *r = Var2Par(*a); }')
    for c in ('Lt', 'Le', 'Eq', 'Ge', 'Gt'):
        s.append('void w_cond%s(A* r, const A* a, const A* b, const A* c, const A* d) { *r = CondExp%s(*a, *b, *c, *d); }' % (c, c))
    for i, o in enumerate(('<', '<=', '==', '>=', '>', '!=')):
        s.append('bool w_cmp%d(const A* a, const A* b) { return *a %s *b; }' % (i, o))
        s.append('bool w_cmp%d_d(const A* a, double b) { return *a %s b; }' % (i, o))
        s.append('bool w_d_cmp%d(double a, const A* b) { return a %s *b; }' % (i, o))
    s.append('bool w_par(const A* a) { return Parameter(*a); } bool w_var(const A* a) { return Variable(*a); } bool w_dyn(const A* a) { return Dynamic(*a); } bool w_con(const A* a) { return Constant(*a); }')
    s.append('}')
    return '\n'.join(s)
def load():
    return build.ir(driver(), 'record', extra=['-fno-access-control'])
def enum_names(path, enum):
    txt = open(os.path.join(build.REPO, path)).read()
    body = re.search(r'(?:typedef\s+)?enum\s*(?:%s)?\s*\{(.*?)\}' % enum, txt[txt.index(enum) if False else 0:], re.S)
    # the enum whose closing name or tag is `enum`
    for m in re.finditer(r'enum\s*(\w*)\s*\{(.*?)\}\s*(\w*)\s*;', txt, re.S):
        if m.group(1) == enum or m.group(3) == enum:
            b = re.sub(r'//[^\n]*', '', m.group(2)); b = re.sub(r'/\*.*?\*/', '', b, flags=re.S)
            names = [x.strip() for x in b.split(',') if x.strip()]
            out = {}; k = 0
            for n in names:
                if '=' in n: n, v = n.split('='); n = n.strip(); k = int(v)
                out[n] = k; k += 1
            return out
    raise Unsupported('enum %s' % enum)

FUN = {'fabs': 'abs'}
def sgn(x): return ite(lt0(-x, 'R'), 1, ite(eq0(x, 'R'), 0, -1))
def absr(x): return ite(lt0(-x, 'R'), x, ite(eq0(x, 'R'), 0, -x))
def fun(n, *a):
    if n in ('abs', 'fabs'): return absr(a[0])
    if n == 'sign': return sgn(a[0])
    if n == 'neg': return -a[0]
    if n in ('plus', 'copy', 'ctor'): return a[0]
    if n == 'log10': return app('log', [a[0]], 'R') / P(Fr(math.log(10)))
    if n == 'add': return a[0] + a[1]
    if n == 'sub': return a[0] - a[1]
    if n in ('mul', 'azmul'): return a[0] * a[1]
    if n == 'div': return a[0] / a[1] if a[1].d else app('div0', [a[0]], 'R')
    return app(n, list(a), 'R')
def op_semantics():
    """op code name -> (argument kinds, function) ; kinds: v variable, p parameter"""
    t = {}
    for n in ('Abs', 'Acos', 'Acosh', 'Asin', 'Asinh', 'Atan', 'Atanh', 'Cos', 'Cosh', 'Exp', 'Expm1', 'Log1p', 'Log', 'Sin', 'Sinh', 'Sqrt', 'Tan', 'Tanh', 'Sign', 'Neg'):
        t[n + 'Op'] = ('v', lambda x, n=n: fun(n.lower(), x))
    for a, b in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Pow', 'pow'), ('Zmul', 'azmul')):
        for k in ('vv', 'pv', 'vp'):
            t[a + k + 'Op'] = (k, lambda x, y, b=b: fun(b, x, y))
    for n in ('Erf', 'Erfc'): t[n + 'Op'] = ('vpp', lambda x, p, q, n=n: fun(n.lower(), x))
    return t
def dyn_semantics():
    t = {}
    for n in ('abs', 'acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cos', 'cosh', 'erf', 'erfc', 'exp', 'expm1', 'fabs', 'log1p', 'log', 'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'sign', 'neg'):
        t[n + '_dyn'] = (1, lambda x, n=n: fun(n, x))
    for a, b in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('div', 'div'), ('pow', 'pow'), ('zmul', 'azmul')):
        t[a + '_dyn'] = (2, lambda x, y, b=b: fun(b, x, y))
    return t
CMP = {'Lt': lambda d: lt0(d, 'R'), 'Le': lambda d: le0(d, 'R'), 'Eq': lambda d: eq0(d, 'R'), 'Ge': lambda d: le0(-d, 'R'), 'Gt': lambda d: lt0(-d, 'R'), 'Ne': lambda d: Not(eq0(d, 'R'))}

def mapterm(d, f):
    """rebuild a term bottom up; f(name, args) rewrites an application or returns None"""
    def rec(p):
        out = ZERO
        for m, c in p.d.items():
            t = P(c)
            for a, e in m:
                q = atom(ATOMS[a])
                for _ in range(abs(e)): t = t * q if e > 0 else t / q
            out = out + t
        return out
    def atom(a):
        if a.kind == 'APP':
            args = tuple(rec(x) if isinstance(x, Poly) else x for x in a.args[1:])
            r = f(a.args[0], args)
            return r if r is not None else P(mk_atom('APP', (a.args[0],) + args, a.sort))
        if a.kind == 'ITE': return ite(cond(a.args[0]), rec(a.args[1]), rec(a.args[2]))
        if a.kind == 'INV': return inverse(rec(a.args[0]))
        if a.kind == 'B2I': return b2i(cond(a.args[0]))
        return P(a)
    def cond(c):
        if c.k in ('le0', 'lt0', 'eq0'): return {'le0': le0, 'lt0': lt0, 'eq0': eq0}[c.k](rec(c.a[0]), c.a[1])
        if c.k == 'not': return Not(cond(c.a[0]))
        if c.k == 'and': return And(*[cond(x) for x in c.a])
        if c.k == 'or': return Or(*[cond(x) for x in c.a])
        return c
    return rec(d)
def powrule(n, a):
    """pow(x, 0) = 1, pow(x, 1) = x, pow(0, y) = 0 (domain: positive exponent when the base is zero)"""
    if n == 'pow':
        if a[1].cval() == 0: return ONE
        if a[1].cval() == 1: return a[0]
        if a[0].cval() == 0: return ZERO
        if a[0].cval() == 1: return ONE
class Rec:
    def __init__(self, M):
        self.M = M; self.log = []
        self.ops = enum_names('include/cppad/local/op_code_var.hpp', 'op_code_var'); self.opname = {v: k for k, v in self.ops.items()}
        self.dyn = enum_names('include/cppad/local/op_code_dyn.hpp', 'op_code_dyn'); self.dynname = {v: k for k, v in self.dyn.items()}
        self.cop = {v: k[len('Compare'):] for k, v in enum_names('include/cppad/local/define.hpp' if False else COPFILE, 'CompareOp').items()}
        self.osem = op_semantics(); self.dsem = dyn_semantics()
        self.K = {}
        for n, line in M.globals.items():
            m = re.search(r'@K_(\w+)$', n)
            if m: self.K[m.group(1)] = int(re.search(r'i64 (-?\d+)', line).group(1))
        self._na = {}
    def num(self, which, op):
        key = (which, op)
        if key not in self._na:
            E = Engine(self.M, Prover())
            r = E.call(State(), '@k_' + which, [P(op)])
            assert len(r) == 1
            self._na[key] = int(r[0][1].cval())
        return self._na[key]
    # ----------------------------------------------------------------- ghost tape
    def engine(self):
        pr = Prover(); E = Engine(self.M, pr)
        self.pr = pr; self.E = E
        K = self.K
        tid = P(var('T')); self.tid = tid
        pr.axioms = [ge(tid, 1)]
        def tape_ptr(E, st, a, ins, dem):
            have = bvar('have_tape')
            out = []
            for s, r in E.decide(st, have):
                if not r: out.append((s, NULL)); continue
                if 'tape' not in s.mem:
                    s.mem['tape'] = Obj('tape', 'TAPE', (Upd('pt', P(K['tid']), tid, K['tidsize'], 'I'),), None, {'const': True})
                out.append((s, Ptr('tape', 0)))
            return out
        def complete(st):
            # the operator and its arguments may be put in either order
            if 'pend' in st.ghost and len(st.ghost.get('args', ())) >= self.num('numarg', st.ghost['pend'][0]):
                op, i = st.ghost.pop('pend')
                self.put_op(st, op, st.ghost.get('args', ()), i)
        def plain(st, vals):
            # resolve conditional values on this path (or split it)
            out = []
            for v in vals:
                v = E.num(v)
                for it in range(30):
                    x = next((ATOMS[x] for x in sorted(v.atoms()) if ATOMS[x].kind in ('ITE', 'B2I')), None)
                    if x is None: break
                    c = x.args[0]
                    if pr.prove(st.pc, c): k = True
                    elif pr.prove(st.pc, Not(c)): k = False
                    else: raise NeedSplit(c)
                    r = (x.args[1] if k else x.args[2]) if x.kind == 'ITE' else P(int(k))
                    cc = coeff(v, x)
                    if cc is None: raise Unsupported('conditional argument')
                    v = cc[0] * r + cc[1]
                out.append(v)
            return out
        def PutArg(E, st, a, ins, dem):
            a = [a[0]] + plain(st, a[1:])
            st.ghost['args'] = st.ghost.get('args', ()) + tuple(E.num(x) for x in a[1:]); complete(st); return [(st, None)]
        def PutOp(E, st, a, ins, dem):
            op = a[1].cval()
            if op is None: raise Unsupported('symbolic operator')
            if 'pend' in st.ghost: raise ObligationFailed('operator put before the arguments of the previous one')
            i = fresh('new', 'I'); st.ghost['pend'] = (int(op), i); complete(st)
            return [(st, P(i))]
        st0 = State()
        def tape_id_ptr(E, st, a, ins, dem):
            if 'tapeid' not in st.mem: st.mem['tapeid'] = Obj('tapeid', 'TID', (Upd('pt', ZERO, tid, K['tidsize'], 'I'),), None, {'const': True})
            return [(st, Ptr('tapeid', 0))]
        def put_con(E, st, a, ins, dem):
            v = E.load(st, a[1], ('fp', 'double'))
            i = fresh('con', 'I'); st.ghost['pars'] = st.ghost.get('pars', ()) + ((i.id, v, 'con', v),)
            return [(st, P(i))]
        def put_dyn(E, st, a, ins, dem):
            v = E.load(st, a[1], ('fp', 'double'))
            a[2:] = plain(st, a[2:])
            args = a[3:]
            op = a[2].cval()
            if op is None: raise Unsupported('symbolic dynamic operator')
            nm = self.dynname.get(int(op))
            if nm not in self.dsem: raise ObligationFailed('dynamic operator %s recorded by an arithmetic operation' % nm)
            n, f = self.dsem[nm]
            if len(args) != self.num('numargdyn', int(op)) or len(args) != n: raise ObligationFailed('number of arguments recorded for %s' % nm, str(len(args)))
            den = f(*[self.den_par(st, x) for x in args])
            i = fresh('dyn', 'I'); st.ghost['pars'] = st.ghost.get('pars', ()) + ((i.id, den, 'dyn', v),)
            return [(st, P(i))]
        def put_dyn_cond(E, st, a, ins, dem):
            v = E.load(st, a[1], ('fp', 'double')); cop = None
            a[2:7] = plain(st, a[2:7]); cop = int(a[2].cval())
            l, r, t, f = [self.den_par(st, E.num(x)) for x in a[3:7]]
            den = self.select(cop, l, r, t, f)
            i = fresh('dyn', 'I'); st.ghost['pars'] = st.ghost.get('pars', ()) + ((i.id, den, 'dyn', v),)
            return [(st, P(i))]
        def isnan(E, st, a, ins, dem): return [(st, FALSE)]
        def azm(E, st, a, ins, dem):
            return [(st, E.num(E.load(st, a[0], ('fp', 'double'))) * E.num(E.load(st, a[1], ('fp', 'double'))))]
        R = r'CppAD::local::(?:dyn_)?recorder<double>::'
        E.contracts = {r'^(?:CppAD::local::ADTape<double>\* )?CppAD::AD<double>::tape_ptr\(': tape_ptr, r'CppAD::AD<double>::tape_id_ptr\(': tape_id_ptr,
                       R + r'PutArg\(': PutArg, R + r'PutOp\(': PutOp, R + r'put_con_par\(': put_con, R + r'put_dyn_par\(': put_dyn, R + r'put_dyn_cond_exp\(': put_dyn_cond,
                       r'CppAD::isnan': isnan, r'^(?:double )?CppAD::azmul\(double': azm, R + r'get_record_compare': self.get_cmp,
                       r'\bmemset': None}
        E.contracts = {k: v for k, v in E.contracts.items() if v}
        st = State()
        return E, pr, st
    def get_cmp(self, E, st, a, ins, dem): return [(st, bvar('record_compare'))]
    def put_op(self, st, op, args, i):
        nm = self.opname.get(op)
        if nm in ('CExpOp',):
            if len(args) != self.num('numarg', op): raise ObligationFailed('number of arguments of %s' % nm, str(len(args)))
            cop, flag = args[0].cval(), args[1].cval()
            if cop is None or flag is None: raise Unsupported('symbolic flags')
            flag = int(flag)
            vals = [(self.den_var if flag & (1 << k) else self.den_par)(st, args[2 + k]) for k in range(4)]
            den = self.select(int(cop), *vals)
            if flag & 15 == 0: raise ObligationFailed('conditional expression without a variable')
        elif nm in self.CMPOPS:
            kinds, f = self.CMPOPS[nm]
            if len(args) != self.num('numarg', op): raise ObligationFailed('number of arguments of %s' % nm, str(len(args)))
            vals = [(self.den_var if k == 'v' else self.den_par)(st, a) for k, a in zip(kinds, args)]
            st.ghost['args'] = ()
            st.ghost['cmp'] = st.ghost.get('cmp', ()) + (f(vals[0] - vals[1]),)
            return
        elif nm in self.osem:
            kinds, f = self.osem[nm]
            if len(args) != len(kinds) or len(args) != self.num('numarg', op): raise ObligationFailed('number of arguments recorded for %s' % nm, str(len(args)))
            vals = [(self.den_var if k == 'v' else self.den_par)(st, a) for k, a in zip(kinds, args)]
            if nm in ('ErfOp', 'ErfcOp'):
                pz = self.pr
                if not self.iszero(st, vals[1]): raise ObligationFailed('first parameter of %s is not zero' % nm)
                c = vals[2].cval()
                if c is None or abs(float(c) - 1.1283791670955126) > 1e-15: raise ObligationFailed('second parameter of %s is not 2/sqrt(pi)' % nm)
            den = f(*vals)
        else: raise ObligationFailed('operator %s recorded' % nm)
        st.ghost['args'] = ()
        st.ghost['vars'] = st.ghost.get('vars', ()) + ((i.id, den),)
    CMPOPS = {}
    for _a, _c in (('Eq', 'Eq'), ('Ne', 'Ne'), ('Lt', 'Lt'), ('Le', 'Le')):
        for _k in ('vv', 'pv', 'vp', 'pp'):
            CMPOPS[_a + _k + 'Op'] = (_k, CMP[_c])
    def select(self, cop, l, r, t, f):
        nm = self.cop[cop]
        return ite(CMP[nm](l - r), t, f)
    def den_par(self, st, a):
        for i, d, k, v in st.ghost.get('pars', ()):
            if a == P(ATOMS[i]): return d
        for i, d in st.ghost.get('vars', ()):
            if a == P(ATOMS[i]): raise ObligationFailed('variable index used as a parameter index')
        if not any(a == x for x in st.ghost['dynaddr']): 
            # an address is a parameter address only when the operand is a dynamic parameter on this path
            pass
        return app('PARV', [a], 'R')
    def den_var(self, st, a):
        for i, d in st.ghost.get('vars', ()):
            if a == P(ATOMS[i]): return d
        for i, d, k, v in st.ghost.get('pars', ()):
            if a == P(ATOMS[i]): raise ObligationFailed('parameter index used as a variable index')
        return app('VARV', [a], 'R')
    # ----------------------------------------------------------------- AD objects
    def ad(self, st, name):
        K = self.K
        v = P(var('v_' + name, 'R')); i = P(var('id_' + name)); a = P(var('addr_' + name)); t = P(var('type_' + name))
        st.mem[name] = Obj(name, 'AD' + name, (Upd('pt', P(K['value']), v, 8, 'R'), Upd('pt', P(K['id']), i, K['sid'], 'I'), Upd('pt', P(K['addr']), a, K['saddr'], 'I'), Upd('pt', P(K['type']), t, K['stype'], 'I')), None, {})
        d, w, c = K['dynamic'], K['variable'], K['constant']
        self.pr.axioms += [ge(i, 0), ge(a, 0), Or(eq(t, d), eq(t, w), eq(t, c)), Or(Not(eq(t, c)), eq(i, 0)), Or(bvar('have_tape'), Not(eq(i, self.tid)))]
        # an operand on this tape denotes what its address holds; initially that is its value (record time)
        st.ghost['dynaddr'] = st.ghost.get('dynaddr', ()) + (a,)
        return (v, i, a, t)
    def read(self, st, name):
        K = self.K; E = self.E; o = st.mem[name]
        return (E.read_obj(st, o, P(K['value']), 8, 'R'), E.read_obj(st, o, P(K['id']), K['sid'], 'I'), E.read_obj(st, o, P(K['addr']), K['saddr'], 'I'), E.read_obj(st, o, P(K['type']), K['stype'], 'I'))
    def denote(self, st, tup, what):
        """list of (state, denotation, kind)"""
        v, i, a, t = tup
        out = []
        have = bvar('have_tape')
        for s, m in self.E.decide(st, And(have, eq(i, self.tid))):
            if not m: out.append((s, v, 'con')); continue
            for s2, d in self.E.decide(s, eq(t, self.K['dynamic'])):
                if d: out.append((s2, self.den_par(s2, a), 'dyn')); continue
                for s3, w in self.E.decide(s2, eq(t, self.K['variable'])):
                    if w: out.append((s3, self.den_var(s3, a), 'var'))
                    elif self.pr.feasible(s3.pc): raise ObligationFailed('%s is on the tape but neither variable nor dynamic' % what, str(t))
        return [o for o in out if self.pr.feasible(o[0].pc)]
    def iszero(self, st, d, sub=True):
        if not isinstance(d, Poly): return False
        s = {}
        for c in st.pc:
            if c.k == 'eq0' and c.a[1] == 'R':
                p = subst(c.a[0], s)
                for a in p.atoms():
                    if ATOMS[a].kind != 'VAR': continue
                    cc = coeff(p, ATOMS[a])
                    if cc and cc[0].cval(): s = {k: subst(x, {a: -cc[1] / cc[0]}) for k, x in s.items()}; s[a] = -cc[1] / cc[0]; break
        try: d = subst(d, s)
        except ZeroDivisionError: return True   # outside the domain of the operation
        pc = tuple(subst(c, s) for c in st.pc)
        d = mapterm(d, powrule)
        return Norm(self.pr).is_zero(d, pc)
    def agree(self, st, d, e, name, detail):
        if d == e or self.iszero(st, d - e): self.log.append(name); return
        raise ObligationFailed(name, '%s: %s but required %s on path %s' % (detail, d, e, self.pathstr(st)))
    def pathstr(self, st): return ' and '.join(str(c) for c in st.pc)[:700]
    # ----------------------------------------------------------------- checks
    def check(self, fn, spec, kinds, alias=None, name=None):
        """kinds: string of 'a' (AD operand) or 'd' (double operand); spec(*values) -> value; alias 'eq': result is operand 0"""
        name = name or fn
        E, pr, st = self.engine(); st.ghost['args'] = ()
        ops = []; args = []
        st.mem['r'] = None
        if alias is None: self.ad(st, 'r'); pr.axioms = [c for c in pr.axioms]
        else: del st.mem['r']
        names = 'abcd'
        for k, n in zip(kinds, names):
            if k == 'a': ops.append(self.ad(st, n)); args.append(Ptr(n, 0))
            else:
                v = P(var('d_' + n, 'R')); ops.append((v, ZERO, ZERO, P(self.K['constant']))); args.append(v)
        res = 'r'
        if alias == 'eq': res = 'a'
        if alias == 'same': res = 'a'; args[1] = Ptr('a', 0); ops[1] = ops[0]
        if not pr.feasible(()): raise ObligationFailed('vacuous precondition')
        before = {n: st.mem[n] for n in st.mem}
        outs = E.call(st, '@' + fn, [Ptr(res, 0)] + args)
        if not outs: raise ObligationFailed('no path returns', fn)
        npath = 0
        for s, _ in outs:
            if not pr.feasible(s.pc): continue
            if s.ghost.get('args') or 'pend' in s.ghost: raise ObligationFailed('arguments recorded without an operator', fn)
            for n in before:
                if n != res and n in 'abcd' and s.mem[n].upds != before[n].upds: raise ObligationFailed('operand %s changed' % n, fn)
            # split into operand kinds
            cur = [(s, [])]
            for tup in ops:
                nxt = []
                for s1, dens in cur:
                    for s2, d, k in self.denote(s1, tup, 'operand'): nxt.append((s2, dens + [(d, k)]))
                cur = nxt
            for s1, dens in cur:
                r = self.read(s1, res)
                if r[0] is UNDEF or r[1] is UNDEF or r[3] is UNDEF: raise ObligationFailed('result not initialised', fn)
                for s2, d, k in self.denote(s1, r, 'result'):
                    npath += 1
                    kk = ''.join(x[1][0] for x in dens)
                    self.agree(s2, r[0], spec(*[t[0] for t in ops]), '%s: value of the result, operands %s' % (name, kk), 'value')
                    self.agree(s2, d, spec(*[x[0] for x in dens]), '%s: recorded meaning of the result (%s), operands %s' % (name, k, kk), 'denotation')
                    # parameters put on the tape carry their present value
                    for i, dd, pk, v in s2.ghost.get('pars', ()):
                        if pk == 'dyn':
                            # value now: the denotation with operands at their present values
                            now = {}
                            den = self.now(dd, ops)
                            self.agree(s2, v, den, '%s: present value of the recorded dynamic parameter' % name, 'dynamic value')
        if not npath: raise ObligationFailed('no feasible path', fn)
        return sorted(set(self.log))
    def now(self, d, ops):
        """replace PARV(addr), VARV(addr) of the operands by their present values"""
        def f(n, args):
            if n in ('PARV', 'VARV'):
                for v, i, ad, t in ops:
                    if args[0] == ad: return v
        return mapterm(d, f)
    def check_cmp(self, fn, rel, kinds):
        """a comparison: value now, and what is recorded for replay"""
        E, pr, st = self.engine(); st.ghost['args'] = ()
        ops = []; args = []
        for k, n in zip(kinds, 'ab'):
            if k == 'a': ops.append(self.ad(st, n)); args.append(Ptr(n, 0))
            else:
                v = P(var('d_' + n, 'R')); ops.append((v, ZERO, ZERO, P(self.K['constant']))); args.append(v)
        outs = E.call(st, '@' + fn, args); n = 0
        for s, ret in outs:
            if not isinstance(ret, Cond): ret = i2b(ret)
            for s0, r in E.decide(s, ret):
                if not pr.feasible(s0.pc): continue
                now = CMP[rel](ops[0][0] - ops[1][0])
                if not pr.prove(s0.pc, now if r else Not(now)): raise ObligationFailed('%s: the comparison returns the wrong truth value' % fn, 'returns %s on %s' % (r, self.pathstr(s0)))
                cur = [(s0, [])]
                for tup in ops:
                    nxt = []
                    for s1, dens in cur:
                        for s2, d, k in self.denote(s1, tup, 'operand'): nxt.append((s2, dens + [(d, k)]))
                    cur = nxt
                for s1, dens in cur:
                    n += 1; kk = ''.join(x[1][0] for x in dens); rec = s1.ghost.get('cmp', ())
                    if s1.ghost.get('args') or 'pend' in s1.ghost: raise ObligationFailed('arguments recorded without an operator', fn)
                    if s1.ghost.get('vars'): raise ObligationFailed('a comparison recorded a variable', fn)
                    if kk == 'cc':
                        if rec: raise ObligationFailed('%s: comparison of constants recorded' % fn)
                        self.log.append('%s: nothing recorded for constants' % fn); continue
                    for s2, on in E.decide(s1, bvar('record_compare')):
                        if not pr.feasible(s2.pc): continue
                        if not on:
                            if rec: raise ObligationFailed('%s: recorded although recording comparisons is off' % fn)
                            self.log.append('%s: nothing recorded when switched off' % fn); continue
                        if len(rec) != 1: raise ObligationFailed('%s: %d comparisons recorded, one required' % (fn, len(rec)), 'operands %s' % kk)
                        then = CMP[rel](dens[0][0] - dens[1][0])
                        same = then if r else Not(then)
                        if not (pr.prove((rec[0],), same) and pr.prove((same,), rec[0])):
                            raise ObligationFailed('%s: the recorded comparison does not test whether the outcome is still %s' % (fn, r), 'operands %s recorded %s required %s' % (kk, rec[0], same))
                        self.log.append('%s: recorded predicate, outcome %s, operands %s' % (fn, r, kk))
        if not n: raise ObligationFailed('no path returns', fn)
        return sorted(set(self.log))
    def check_kind(self, fn, what):
        """Parameter, Variable, Dynamic, Constant"""
        E, pr, st = self.engine(); st.ghost['args'] = ()
        op = self.ad(st, 'a'); outs = E.call(st, '@' + fn, [Ptr('a', 0)])
        for s, ret in outs:
            if not isinstance(ret, Cond): ret = i2b(ret)
            for s0, r in E.decide(s, ret):
                if not pr.feasible(s0.pc): continue
                for s1, d, k in self.denote(s0, op, 'operand'):
                    if (k in what) != r: raise ObligationFailed('%s returns %s for a %s operand' % (fn, r, k), self.pathstr(s1))
                    self.log.append('%s of a %s operand' % (fn, k))
        return sorted(set(self.log))
COPFILE = 'include/cppad/local/declare_ad.hpp'
CMPREL = ['Lt', 'Le', 'Eq', 'Ge', 'Gt', 'Ne']
def cond_tasks():
    """CondExp and comparisons: (kind, function, extra)"""
    out = []
    for c in ('Lt', 'Le', 'Eq', 'Ge', 'Gt'):
        out.append(('check', 'w_cond' + c, (lambda l, r, t, f, c=c: ite(CMP[c](l - r), t, f), 'aaaa', None)))
    for i, c in enumerate(CMPREL):
        out += [('check_cmp', 'w_cmp%d' % i, (c, 'aa')), ('check_cmp', 'w_cmp%d_d' % i, (c, 'ad')), ('check_cmp', 'w_d_cmp%d' % i, (c, 'da'))]
    out += [('check_kind', 'w_par', (('con', 'dyn'),)), ('check_kind', 'w_var', (('var',),)), ('check_kind', 'w_dyn', (('dyn',),)), ('check_kind', 'w_con', (('con',),))]
    return out
def tasks():
    """(function, spec, kinds, alias)"""
    out = []
    for n in BIN:
        f = lambda x, y, n=n: fun(n, x, y)
        out += [('w_' + n, f, 'aa', None), ('w_%s_eq' % n, f, 'aa', 'eq'), ('w_%s_eq' % n, f, 'aa', 'same'), ('w_%s_d' % n, f, 'ad', None), ('w_d_' + n, f, 'da', None), ('w_%s_eq_d' % n, f, 'ad', 'eq')]
    for n in ('pow', 'azmul'):
        out.append(('w_' + n, lambda x, y, n=n: fun(n, x, y), 'aa', None))
    out += [('w_pow_d', lambda x, y: fun('pow', x, y), 'ad', None), ('w_d_pow', lambda x, y: fun('pow', x, y), 'da', None)]
    for n in UNARY + ['copy', 'ctor']: out.append(('w_' + n, lambda x, n=n: fun(n, x), 'a', None))
    out.append(('w_set', lambda x: x, 'd', None))
    return out
if __name__ == '__main__':
    import sys, time
    M = load()
    for kind, fn, a in cond_tasks():
        if len(sys.argv) > 1 and fn not in sys.argv[1:]: continue
        t = time.time()
        try:
            R = Rec(M); l = getattr(R, kind)(fn, *a)
            print('OK', fn, len(l), '%.1f' % (time.time() - t))
        except (ObligationFailed, Unsupported) as e: print('FAIL', fn, type(e).__name__, str(e)[:700], '%.1f' % (time.time() - t))
    for fn, spec, kinds, alias in tasks():
        if len(sys.argv) > 1 and fn not in sys.argv[1:]: continue
        t = time.time()
        try:
            R = Rec(M); l = R.check(fn, spec, kinds, alias)
            print('OK', fn, alias, len(l), '%.1f' % (time.time() - t))
        except (ObligationFailed, Unsupported) as e: print('FAIL', fn, alias, type(e).__name__, str(e)[:700], '%.1f' % (time.time() - t))
