"""C19: contracts of the derivative drivers (Jacobian, Hessian, ForOne, RevOne, ForTwo, RevTwo).

The drivers are instantiated with a vector class of which only the SimpleVector contract is known, and Forward and
Reverse are used by their contracts: with x0 the point of the last zero order Forward and u the direction of the last
first order Forward, for a twice differentiable F : R^n -> R^m with J = F' and H_i = F_i'' (symmetric):
  Forward(1, u)_i = sum_k J(i,k) u_k,  Forward(2, v)_i = sum_k J(i,k) v_k + 1/2 sum_kl H_i(k,l) u_k u_l
  Reverse(1, w)_j = sum_i w_i J(i,j),  Reverse(2, w)_{2j} = sum_i w_i J(i,j),  Reverse(2, w)_{2j+1} = sum_ik w_i H_i(j,k) u_k
Loops around calls of Forward and Reverse are handled by an invariant that is inferred and checked: every object is
restored by an iteration, or it receives the values the iterations write and no iteration reads what another wrote, or
its value is arbitrary."""
import re, sys, os
from terms import *
from symex import *
from fn import *
from normal import Norm, replace_atom
import build, llir
from llir import materialise, loops
VEC = '''struct %(N)s { typedef %(T)s value_type; %(T)s* p_; size_t n_; %(N)s(); explicit %(N)s(size_t n); %(N)s(const %(N)s&); ~%(N)s();
 %(N)s& operator=(const %(N)s&); size_t size() const; void resize(size_t); %(T)s& operator[](size_t); const %(T)s& operator[](size_t) const; };
'''
def driver():
    return '#include <cppad/cppad.hpp>\n' + VEC % {'N': 'V', 'T': 'double'} + VEC % {'N': 'SV', 'T': 'size_t'} + '''typedef CppAD::ADFun<double> F;
extern "C" {
void w_jac(F& f, const V& x, V& r) { r = f.Jacobian(x); }
void w_jacfor(F& f, const V& x, V& r) { CppAD::JacobianFor(f, x, r); }
void w_jacrev(F& f, const V& x, V& r) { CppAD::JacobianRev(f, x, r); }
void w_hesl(F& f, const V& x, size_t l, V& r) { r = f.Hessian(x, l); }
void w_hesw(F& f, const V& x, const V& w, V& r) { r = f.Hessian(x, w); }
void w_forone(F& f, const V& x, size_t j, V& r) { r = f.ForOne(x, j); }
void w_revone(F& f, const V& x, size_t j, V& r) { r = f.RevOne(x, j); }
void w_fortwo(F& f, const V& x, const SV& j, const SV& k, V& r) { r = f.ForTwo(x, j, k); }
void w_revtwo(F& f, const V& x, const SV& j, const SV& k, V& r) { r = f.RevTwo(x, j, k); }
}
'''
def load(): return build.ir(driver(), 'drivers')
N = P(var('n')); M_ = P(var('m'))
def J(i, j): return app('J', [P(i), P(j)], 'R')
def H(i, j, k):
    a, b = sorted((P(j), P(k)), key=lambda p: str(p))
    return app('H', [P(i), a, b], 'R')
def Y(i): return app('Y', [P(i)], 'R')
HALF = Poly({(): Fr(1, 2)})
class Vecs:
    """objects of a class that satisfies the SimpleVector contract"""
    def key(self, p):
        if not isinstance(p, Ptr) or p.obj is None: raise ObligationFailed('a vector operation on %r' % (p,))
        return '%s+%s' % (p.obj, p.off)
    def install(self, E):
        sv = r'S?V'
        E.contracts.update({
            r'^%s::S?V\(unsigned long\)$' % sv: lambda E, st, a, ins, d: self.new(st, a[0], P(a[1]), d),
            r'^%s::S?V\(\)$' % sv: lambda E, st, a, ins, d: self.new(st, a[0], ZERO, d),
            r'^%s::S?V\(S?V const&\)$' % sv: lambda E, st, a, ins, d: self.copyctor(st, a[0], a[1], d),
            r'^%s::~S?V\(\)$' % sv: lambda E, st, a, ins, d: self.destroy(st, a[0]),
            r'^%s::operator=\(S?V const&\)$' % sv: lambda E, st, a, ins, d: self.assign(st, a[0], a[1], d),
            r'^%s::size\(\) const$' % sv: lambda E, st, a, ins, d: self.get(st, a[0])[1],
            r'^%s::resize\(unsigned long\)$' % sv: lambda E, st, a, ins, d: self.resize(st, a[0], P(a[1]), d),
            r'^%s::operator\[\]\(unsigned long\)( const)?$' % sv: lambda E, st, a, ins, d: self.at(st, a[0], a[1]),
        })
        self.E = E; self.pr = E.pr; self.n = 0
    def get(self, st, p):
        v = st.ghost['vec'].get(self.key(p))
        if v is None: raise ObligationFailed('use of a vector that does not exist', str(p))
        return v
    def put(self, st, p, v): g = dict(st.ghost['vec']); g[self.key(p)] = v; st.ghost['vec'] = g
    def sort(self, d): return 'I' if d.startswith('SV') else 'R'
    def fresh_data(self, st, base, size, sort):
        self.n += 1; n = 'data%d' % self.n
        st.mem[n] = Obj(n, base, (), size * 8, {'esize': 8, 'sort': sort}); return n
    def new(self, st, p, size, d):
        self.put(st, p, (self.fresh_data(st, 'uninit', size, self.sort(d)), size)); return None
    def destroy(self, st, p):
        self.get(st, p); g = dict(st.ghost['vec']); del g[self.key(p)]; st.ghost['vec'] = g; return None
    def elem(self, st, v, i, sort): return self.E.read_obj(st, st.mem[v[0]], P(i) * 8, 8, sort)
    def copy(self, st, dst, src, sort):
        """contents of src (data, size) to the data object dst"""
        o = st.mem[dst]; q = st.mem[src[0]]
        st.mem[dst] = Obj(o.name, q.base, q.upds, o.size, o.meta)
    def copyctor(self, st, p, q, d):
        src = self.get(st, q); self.new(st, p, src[1], d); self.copy(st, self.get(st, p)[0], src, self.sort(d)); return None
    def assign(self, st, p, q, d):
        dst = self.get(st, p); src = self.get(st, q)
        if dst[0] == src[0]: return p
        if not self.E.same(st.pc, dst[1], src[1]):
            if not self.E.same(st.pc, dst[1], ZERO): raise ObligationFailed('vectors that are assigned have equal sizes', '%s and %s' % (dst[1], src[1]))
            self.put(st, p, (dst[0], src[1]))
        self.copy(st, dst[0], src, self.sort(d)); return p
    def resize(self, st, p, n, d):
        v = self.get(st, p)
        if self.E.same(st.pc, v[1], n): return None
        self.put(st, p, (self.fresh_data(st, 'uninit', n, self.sort(d)), n)); return None
    def at(self, st, p, i):
        v = self.get(st, p)
        if not self.pr.prove(st.pc, And(ge(i, 0), lt(i, v[1]))) and not self.radix_bound(st, i, v[1]):
            raise ObligationFailed('vector indices are in range', 'index %s of a vector of size %s on %s' % (i, v[1], ' and '.join(map(str, st.pc))[:400]))
        return Ptr(v[0], P(i) * 8)
    def radix_bound(self, st, i, size):
        """a s + b < c s for 0 <= a < c, 0 <= b < s"""
        for s in self.pr.scales:
            r = radix_split(i, s); c = exact_div(size, s)
            if r is None or c is None: continue
            if self.pr.prove(st.pc, And(ge(r[0], 0), lt(r[0], c), ge(r[1], 0), lt(r[1], s))): return True
        return False
class Calls(Vecs):
    """Forward, Reverse, Domain, Range and Parameter of the function"""
    def install(self, E):
        Vecs.install(self, E)
        E.contracts.update({
            r'ADFun<double, double>::Forward<V>\(unsigned long, V const&': self.forward,
            r'ADFun<double, double>::Reverse<V>\(unsigned long, V const&': self.reverse,
            r'ADFun<double, double>::Domain\(': lambda E, st, a, ins, d: N,
            r'ADFun<double, double>::Range\(': lambda E, st, a, ins, d: M_,
            r'ADFun<double, double>::Parameter\(': lambda E, st, a, ins, d: app_bool('Par', P(a[1])),
        })
        self.par = {}
    def result(self, st, p, size, rd):
        self.n += 1; b = 'res%d' % self.n
        self.E.bases[b] = lambda E, s, o, off, w, sort: rd(off)
        self.put(st, p, (self.fresh_data(st, b, size, 'R'), size)); return None
    def idx(self, off, w=8):
        i = exact_div(off, P(w))
        if i is None: raise Unsupported('element offset %s' % off)
        return i
    def support(self, st, v, what):
        """elements of a vector: list of (index, value) when only these are not zero, else a function of the index"""
        k = fresh('k', 'I'); pc = st.pc + (ge(P(k), 0), lt(P(k), v[1])); s2 = State(pc, st.mem)
        c = self.E.read_obj(s2, st.mem[v[0]], P(k) * 8, 8, 'R')
        if c is UNDEF: raise ObligationFailed('%s is completely set' % what)
        if not c.d: return []
        cand = []
        def conds(x):
            for a in x.atoms():
                a = ATOMS[a]
                if a.kind == 'ITE':
                    walk(a.args[0]); conds(a.args[1]); conds(a.args[2])
        def walk(q):
            if q.k == 'eq0':
                cc = coeff(q.a[0], k)
                if cc is not None and cc[0].cval() in (1, -1):
                    j = -cc[1] * cc[0].cval()
                    if j not in cand: cand.append(j)
            for y in q.a:
                if isinstance(y, Cond): walk(y)
        conds(c)
        rest = self.ev(c, pc + tuple(Not(eq0(P(k) - j, 'I')) for j in cand))
        if rest.d: return lambda i: subst(c, {k.id: P(i)})
        out = []
        for j in cand:
            if self.pr.prove(st.pc, Or(lt(j, 0), ge(j, v[1]))): continue
            if any(self.E.same(st.pc, j, i) for i, _ in out): continue
            for i, _ in out:
                if not self.pr.prove(st.pc, Not(eq0(i - j, 'I'))): raise NeedSplit(eq0(i - j, 'I'))
            x = self.ev(subst(c, {k.id: j}), st.pc)
            if x.d: out.append((j, x))
        return out
    def ev(self, p, pc):
        """resolve the case distinctions that are decided"""
        out = ZERO
        for m, c in p.d.items():
            t = P(c)
            for a, e in m:
                q = ATOMS[a]
                if q.kind == 'ITE':
                    d = q.args[0]
                    if self.pr.prove(pc, d): x = self.ev(q.args[1], pc)
                    elif self.pr.prove(pc, Not(d)): x = self.ev(q.args[2], pc)
                    else:
                        x = self.ev(q.args[1], pc + (d,)); y = self.ev(q.args[2], pc + (Not(d),))
                        x = ite(d, x, y) if x != y else x
                else: x = P(q)
                for _ in range(abs(e)): t = t * x if e > 0 else t / x
            out = out + t
        return out
    def total(self, sup, size, f):
        if isinstance(sup, list):
            r = ZERO
            for i, c in sup: r = r + c * f(i)
            return r
        k = fresh('k', 'I'); return mk_sum(k, ZERO, size - 1, sup(P(k)) * f(P(k)))
    def point(self, st):
        if not st.ghost['x0']: raise ObligationFailed('derivatives are evaluated at the given point')
    def forward(self, E, st, a, ins, d):
        ret, f, q, x = a[:4]; q = P(q).cval(); v = self.get(st, x)
        if q is None: raise Unsupported('order of Forward')
        if not E.same(st.pc, v[1], N):
            if not E.same(st.pc, v[1], N * (int(q) + 1)): raise ObligationFailed('Forward is called with a vector of the size of the domain', str(v[1]))
            raise Unsupported('Forward with several orders')
        if q == 0:
            k = fresh('k', 'I'); s2 = State(st.pc + (ge(P(k), 0), lt(P(k), N)), st.mem)
            g = E.read_obj(s2, st.mem[v[0]], P(k) * 8, 8, 'R'); w = sel('X', P(k) * 8, 'R')
            st.ghost['x0'] = isinstance(g, Poly) and (g == w or self.pr.prove(s2.pc, eq0(g - w, 'R'))); st.ghost['dir'] = None
            return self.result(st, ret, M_, lambda off: Y(self.idx(off)))
        self.point(st); s = self.support(st, v, 'the direction of Forward')
        if q == 1:
            st.ghost['dir'] = s if isinstance(s, list) else 'general'
            return self.result(st, ret, M_, lambda off: self.total(s, N, lambda k: J(self.idx(off), k)))
        if q == 2:
            u = st.ghost['dir']
            if u is None: raise ObligationFailed('the first order direction is set before second order Forward')
            if not isinstance(u, list): raise Unsupported('second order along a general direction')
            def second(i):
                r = self.total(s, N, lambda k: J(i, k))
                for j, c in u:
                    for k, e in u: r = r + HALF * c * e * H(i, j, k)
                return r
            return self.result(st, ret, M_, lambda off: second(self.idx(off)))
        raise Unsupported('order of Forward')
    def reverse(self, E, st, a, ins, d):
        ret, f, q, x = a[:4]; q = P(q).cval(); v = self.get(st, x); self.point(st)
        if q not in (1, 2): raise Unsupported('order of Reverse')
        if not E.same(st.pc, v[1], M_):
            if q == 2 and E.same(st.pc, v[1], 2 * M_): raise Unsupported('Reverse with weights of every order')
            raise ObligationFailed('Reverse is called with a weight for every component', str(v[1]))
        s = self.support(st, v, 'the weight of Reverse')
        if q == 1: return self.result(st, ret, N, lambda off: self.total(s, M_, lambda i: J(i, self.idx(off))))
        u = st.ghost['dir']
        if u is None: raise ObligationFailed('the first order direction is set before second order Reverse')
        if not isinstance(u, list): raise Unsupported('second order along a general direction')
        def rd(off):
            j = exact_div(off, P(16))
            if j is not None: return self.total(s, M_, lambda i: J(i, j))
            j = exact_div(off - 8, P(16))
            if j is None: raise Unsupported('element of a second order Reverse')
            return self.total(s, M_, lambda i: self.total(u, N, lambda k: H(i, j, k)))
        return self.result(st, ret, 2 * N, rd)
class Rule:
    """loops around Forward and Reverse"""
    def __init__(self, calls, fun): self.c = calls; self.fun = fun; self.busy = set()
    def has_call(self, M, f, L, seen=()):
        for b in L.body:
            for i in f.blocks[b].ins:
                if i.op == 'call' and i.a[0][0] == 'glob':
                    d = M.dem.get(i.a[0][1], '')
                    if re.search(r'::(Forward|Reverse)<', d): return True
        return False
    def hook(self, E, st, env, f, L, prev):
        if (f.name, L.header) in self.busy: return None
        if not self.has_call(E.M, f, L):
            try: return E.loop_default(st, env, f, L, prev)
            except Unsupported as e:
                r = self.arbitrary(E, st, env, f, L, prev)
                if r is None: raise
                return r
        if self.small(E, st, env, f, L, prev): return E.try_unroll(st, env, f, L, prev, decided_only=False, limit=8)
        self.busy.add((f.name, L.header))
        try: return self.loop(E, st, env, f, L, prev)
        finally: self.busy.discard((f.name, L.header))
    def arbitrary(self, E, st, env, f, L, prev):
        """a loop that changes no memory: arbitrary values of its variables"""
        H, init = E.loop_entry(st, env, f, L, prev); e1 = dict(env)
        for ph in H.phis:
            if ph.ty[0] != 'int': return None
            b = fresh_bool('any'); e1[ph.res] = (b if ph.ty[1] == 1 else b2i(b)) if asbool(init[ph.res]) is not None and ph.ty[1] in (1, 8) else P(fresh('any', 'I'))
            if isinstance(e1[ph.res], Poly) and ph.ty[1] == 64: st = st.fork(ge(e1[ph.res], 0))
        out = []
        for o in E.run(st.fork(), e1, f, L.header, prev, L.body, skip_loop=L.header):
            if not E.pr.feasible(o.st.pc): continue
            if any(n in o.st.mem and o.st.mem[n].upds != ob.upds for n, ob in st.mem.items()) or any(o.st.ghost[g] is not st.ghost[g] for g in st.ghost): return None
            if o.kind == 'ret': out.append((o.st, o.env, o.data, None))
            elif o.data[1] != L.header: out.append((o.st, o.env, o.data[0], o.data[1]))
        return out
    def small(self, E, st, env, f, L, prev):
        """some induction variable starts at a constant and runs against a constant"""
        H, init = E.loop_entry(st, env, f, L, prev)
        t = H.term
        if t.op != 'condbr': return False
        defs = {i.res: i for i in H.ins if i.res}
        c = t.a[0]
        if c[0] == 'loc' and c[1] in defs and defs[c[1]].op == 'icmp':
            i = defs[c[1]]; x, y = i.a[1], i.a[2]
            return any(z[0] == 'int' for z in (x, y)) and any(z[0] == 'loc' and z[1] in init and isinstance(init[z[1]], Poly) and init[z[1]].cval() is not None for z in (x, y))
        return False
    def loop(self, E, st, env, f, L, prev):
        H, init = E.loop_entry(st, env, f, L, prev)
        t, form, accs, init, syms = E.closed_forms(st, env, f, L, prev)
        if any(ph.ty[0] == 'fp' for ph in accs): raise Unsupported('accumulator around Forward')
        bools = [ph.res for ph in accs]
        mode = {}; gmode = {}; rel = None; norel = False
        for rnd in range(30):
            s1 = st.fork(ge(P(t), 0)); b = E.header_bound(st, env, f, L, form, accs, t)
            if b is not None: s1 = s1.fork(le(P(t), b))
            e1 = dict(env); hv = {}; bs = {}
            for ph in H.phis:
                if ph.res in form: e1[ph.res] = form[ph.res]
                else:
                    x = asbool(init[ph.res]) if rnd == 0 else None
                    if x is None: x = fresh_bool('flag')
                    bs[ph.res] = x; e1[ph.res] = x if ph.ty[1] == 1 else b2i(x)
            for n, md in mode.items():
                if md == 'restored': continue
                o = s1.mem[n]; hv[n] = 'HV%d:%s' % (rnd, n); s1.mem[n] = Obj(n, hv[n], (), o.size, o.meta)
            if rel is not None: rel.install(hv, P(t))
            heads = [s1]
            for g, grel in gmode.items():
                if grel is None:
                    for s in heads: s.ghost[g] = None
                else:
                    ph, val = grel; h2 = []
                    for s in heads:
                        a = s.fork(bs[ph]); a.ghost[g] = val; c = s.fork(Not(bs[ph])); c.ghost[g] = None; h2 += [a, c]
                    heads = h2
            outs = []
            for s in heads:
                for o in E.run(s, dict(e1), f, L.header, prev, L.body, skip_loop=L.header):
                    if E.pr.feasible(o.st.pc): outs.append((s, o))
            backs = [(s, o) for s, o in outs if o.kind == 'edge' and o.data[1] == L.header]
            if not backs: return E.try_unroll(st, env, f, L, prev, decided_only=False, limit=2)
            again = False
            # flags
            def flag(o, res):
                for ph in H.phis:
                    if ph.res == res:
                        for v, pb in ph.a:
                            if pb == o.data[0]: return asbool(E.coerce(E.const(v, ph.ty, o.st, o.env), ph.ty))
            if os.environ.get('DBG'): print(L.header, rnd, mode, gmode, rel, norel)
            # ghost state
            for g in ('x0', 'dir'):
                for s, o in backs:
                    if o.st.ghost[g] == s.ghost[g] and type(o.st.ghost[g]) == type(s.ghost[g]): continue
                    if os.environ.get('DBG'): print(L.header, g, s.ghost[g], '->', o.st.ghost[g], [(r, flag(o, r), init[r]) for r in bools], bs, form)
                    if g == 'x0': raise ObligationFailed('the point of evaluation does not change during a loop')
                    if g not in gmode:
                        grel = None
                        for r in bools:
                            x = flag(o, r)
                            if x is TRUE and asbool(init[r]) is FALSE and isinstance(o.st.ghost[g], list) and not any(t.id in (P(i).vars() | P(c).vars()) for i, c in o.st.ghost[g]): grel = (r, o.st.ghost[g])
                        gmode[g] = grel; again = True; break
                    if gmode[g] is not None:
                        r, val = gmode[g]; x = flag(o, r)
                        ok = x is not None and (o.st.ghost[g] == val or E.pr.prove(o.st.pc, Not(x)))
                        if not ok: gmode[g] = None; again = True; break
                if not again and gmode.get(g) is not None:
                    r, val = gmode[g]
                    for s, o in backs:
                        x = flag(o, r)
                        if o.st.ghost[g] != val and not E.pr.prove(o.st.pc, Not(x)): gmode[g] = None; again = True; break
            # objects
            for n, ob in st.mem.items():
                if mode.get(n) == 'scratch': continue
                for s, o in backs:
                    nw = o.st.mem[n]
                    if nw is s.mem[n] or (nw.upds == s.mem[n].upds and nw.base == s.mem[n].base): continue
                    m = mode.get(n)
                    if m is None: mode[n] = m = 'restored'
                    if m == 'restored':
                        if not self.restored(E, o.st, st, n): mode[n] = 'output'; again = True; break
                    elif m == 'output' and nw.base != hv[n]: mode[n] = 'scratch'; again = True; break
                    elif m == 'output' and any(u.kind != 'pt' for u in nw.upds): mode[n] = 'scratch'; again = True; break
            vk = {k: v for k, v in st.ghost['vec'].items()}
            for s, o in backs:
                for k, v in vk.items():
                    if o.st.ghost['vec'].get(k) != v: raise Unsupported('a vector of the loop changes its size')
            if again or (rnd == 0 and bools): continue
            # what an iteration writes may not depend on what earlier iterations wrote
            dep = set()
            for s, o in outs:
                for x in list(o.st.pc) + [y for n in st.mem for u in o.st.mem[n].upds if mode.get(n) == 'output' for y in (u.off, u.val, u.guard)]:
                    for n in hv:
                        if isinstance(x, (Poly, Cond)) and E.has_layer(x, hv[n]) and mode[n] == 'output': dep.add(n)
                for n, md in mode.items():
                    if md == 'output' and any(isinstance(y, (Poly, Cond)) and any(E.has_layer(y, h) for h in hv.values()) for u in o.st.mem[n].upds for y in (u.off, u.val, u.guard)): dep.add(n)
                    if md == 'output' and len(backs) > 1 and o.st.mem[n].upds and any(E.has_layer(y, h) for y in o.st.pc for h in hv.values()): dep.add(n)
            if dep:
                for n in dep: mode[n] = 'scratch'
                continue
            if rel is None and not norel:
                rel = Relation.find(E, st, backs, mode, hv, t)
                if rel is not None: continue
                norel = True
            if rel is not None:
                if not rel.check(E, st, backs, t): rel = None; norel = True; continue
            r = self.finish(E, st, env, f, L, prev, H, t, form, init, bools, s1, backs, outs, mode, gmode, hv, bs, rel)
            if r is not None: return r
        raise Unsupported('loop around Forward and Reverse')
    def restored(self, E, s, st, n):
        k = P(fresh('k', 'I')); o = st.mem[n]; es = o.meta.get('esize') or 8; sort = o.meta.get('sort')
        if sort is None: return False
        s2 = State(s.pc + (ge(k, 0),) + ((lt(k * es, o.size),) if o.size is not None else ()), s.mem)
        try: a = E.read_obj(s2, s.mem[n], k * es, es, sort); b = E.read_obj(State(s2.pc, st.mem), o, k * es, es, sort)
        except (Unsupported, NeedSplit): return False
        if a is UNDEF or b is UNDEF: return a is b
        if isinstance(a, Cond) or isinstance(b, Cond): return E.pr.prove(s2.pc, Iff(a if isinstance(a, Cond) else i2b(a), b if isinstance(b, Cond) else i2b(b)))
        return a == b or E.pr.prove(s2.pc, eq0(a - b))
    def quantify(self, u, t, K):
        if t.id not in u.off.vars():
            for c in (u.guard.a if u.guard.k == 'and' else (u.guard,)):
                if c.k == 'eq0' and t.id in c.vars():
                    cc = coeff(c.a[0], t)
                    if cc is not None and cc[0].cval() in (1, -1):
                        j = -cc[1] * cc[0].cval(); s = {t.id: j}
                        return Upd(u.kind, u.off, subst(u.val, s), u.width, u.sort, u.vars, And(ge(j, 0), lt(j, K), subst(u.guard, s)))
        return Upd(u.kind, u.off, u.val, u.width, u.sort, ((t, K),) + u.vars, u.guard)
    def finish(self, E, st, env, f, L, prev, H, t, form, init, bools, s1, backs, outs, mode, gmode, hv, bs, rel=None):
        def added(s, o): return [c for c in o.st.pc if c not in s1.pc]
        common = None
        for s, o in backs:
            a = set(added(s, o)); common = a if common is None else common & a
        T = used = None
        for c in common:
            if t.id in c.vars() and c.k in ('le0', 'not', 'eq0'):
                T = E.trip(st.pc, c, t)
                if T is not None: used = c; break
        if T is None: raise LoopFail('trip count')
        for s, o in outs:
            if not (o.kind == 'edge' and o.data[1] == L.header) and Not(used) not in o.st.pc: raise Unsupported('second exit of a loop around Forward')
        K, side = T; K = P(K)
        if side is not None and not E.pr.prove(st.pc, side): raise Unsupported('trip count')
        rng = (ge(P(t), 0), lt(P(t), K)); tp = fresh('tp', 'I')
        new = {}
        for s, o in backs:
            g = And(*[c for c in added(s, o) if c is not used]) if len(backs) > 1 else TRUE
            for n, md in mode.items():
                if md == 'output': new.setdefault(n, []).extend(Upd(u.kind, u.off, u.val, u.width, u.sort, u.vars, And(g, u.guard)) for u in o.st.mem[n].upds)
        flags = {v for c in bs.values() for v in c.vars()}
        for n in new: new[n] = merge(new[n])
        for n, us in new.items():
            for u in us:
                # conditions of a path that no other back edge shares may only depend on the iteration
                if (u.guard.vars() & flags): raise Unsupported('write that depends on a flag of the loop')
                for w in us:
                    s = {t.id: P(tp)}; fr = []
                    for v, nn in w.vars: y = fresh('w', 'I'); s[v.id] = P(y); fr += [ge(P(y), 0), lt(P(y), subst(nn, s))]
                    for v, nn in u.vars: fr += [ge(P(v), 0), lt(P(v), nn)]
                    pc2 = st.pc + rng + tuple(fr) + (ge(P(tp), 0), lt(P(tp), K), Not(eq0(P(tp) - P(t), 'I'))) + tuple(g for g in (u.guard, subst(w.guard, s)) if g is not TRUE)
                    if not E.disjoint(pc2, u.off, u.width, subst(w.off, s), w.width): mode[n] = 'scratch'; return None
        s3 = st.fork(); s3.ghost = dict(st.ghost)
        for n, md in mode.items():
            o = st.mem[n]
            if md == 'output':
                s3.mem[n] = Obj(o.name, o.base, o.upds + tuple(self.quantify(u, t, K) for u in new.get(n, [])), o.size, o.meta)
            elif md == 'scratch': s3.mem[n] = Obj(o.name, 'after:%s:%d' % (n, id(st)), (), o.size, o.meta)
        if rel is not None: rel.install({n: s3.mem[n].base for n in (rel.B, rel.D)}, K)
        for g in gmode: s3.ghost[g] = None
        e3 = dict(env); sub = {t.id: K}
        for ph in H.phis:
            if ph.res in form:
                v = form[ph.res]; e3[ph.res] = Ptr(v.obj, subst(v.off, sub)) if isinstance(v, Ptr) else subst(v, sub)
            else: b = fresh_bool('flag'); e3[ph.res] = b if ph.ty[1] == 1 else b2i(b)
        s3 = s3.fork(subst(Not(used), sub)) if subst(Not(used), sub) is not TRUE else s3
        ret = []
        for o in E.run(s3, e3, f, L.header, prev, L.body, skip_loop=L.header):
            if o.kind == 'ret': ret.append((o.st, o.env, o.data, None)); continue
            if o.data[1] == L.header:
                if E.pr.feasible(o.st.pc): raise LoopFail('exit not taken at the computed trip count')
                continue
            ret.append((o.st, o.env, o.data[0], o.data[1]))
        return ret
class Relation:
    """an array of flags B and a matrix D with B[j] -> D[i n + j] = G(i, j); the flags are known to be set at some indices e(l), l < t"""
    @staticmethod
    def find(E, st, backs, mode, hv, t):
        r = Relation(); r.E = E; r.known = []; r.B = r.D = None
        for s, o in backs:
            for n, md in mode.items():
                if md != 'scratch' or o.st.mem[n].meta.get('esize') != 1: continue
                us = o.st.mem[n].upds
                if not us or any(u.vars or u.guard is not TRUE or not isinstance(u.val, Poly) or u.val.cval() != 1 for u in us): continue
                for u in us:
                    a = [ATOMS[x] for x in u.off.atoms()]
                    if len(a) != 1 or u.off != P(a[0]) or a[0].kind != 'SEL' or coeff(a[0].args[1], t) is None: continue
                    for d, md2 in mode.items():
                        if md2 != 'scratch' or d == n or o.st.mem[d].meta.get('esize') != 8: continue
                        for w in o.st.mem[d].upds:
                            if len(w.vars) != 1 or not isinstance(w.val, Poly): continue
                            v, nn = w.vars[0]; x = exact_div(w.off, P(8)); q = None
                            for sc in E.pr.scales:
                                if x is not None and x == P(v) * sc + u.off: q = sc
                            if q is None: continue
                            val = replace_atom(w.val, a[0].id, P(var('#j'))); val = subst(val, {v.id: P(var('#i'))})
                            if t.id in val.vars() or any(E.has_layer(val, h) for h in hv.values()): continue
                            if r.B not in (None, n) or r.D not in (None, d): continue
                            r.B, r.D, r.G, r.scale, r.rows = n, d, val, q, nn
                            if a[0] not in r.known: r.known.append(a[0])
        if r.B is None: return None
        r.t = t
        o = st.mem[r.B]; j = P(fresh('k', 'I'))
        try: x = E.read_obj(State(st.pc + (ge(j, 0), lt(j, r.scale)), st.mem), o, j, 1, 'I')
        except (Unsupported, NeedSplit): return None
        return r if isinstance(x, Poly) and not x.d else None
    def set(self, x, T, pc):
        a = [ATOMS[y] for y in x.atoms()]
        if len(a) != 1 or x != P(a[0]) or a[0].kind != 'SEL': return False
        for e in self.known:
            if e.args[0] != a[0].args[0]: continue
            cc = coeff(e.args[1], self.t); l = exact_div(a[0].args[1] - cc[1], cc[0])
            if l is not None and self.E.pr.prove(pc, And(ge(l, 0), lt(l, T))): return True
        return False
    def g(self, i, j): return subst(self.G, {var('#i').id: P(i), var('#j').id: P(j)})
    def install(self, hv, T):
        E = self.E; b = hv[self.B]; d = hv[self.D]
        def rb(E, s, o, off, w, sort): return ONE if self.set(off, T, s.pc) else b2i(sel_bool(b, off))
        def rd(E, s, o, off, w, sort):
            x = exact_div(off, P(8)); q = radix_split(x, self.scale) if x is not None else None
            if q is None or not E.pr.prove(s.pc, And(ge(q[1], 0), lt(q[1], self.scale))): return sel(d, off, 'R')
            i, j = q
            return self.g(i, j) if self.set(j, T, s.pc) else ite(sel_bool(b, j), self.g(i, j), sel(d, off, 'R'))
        E.bases[b] = rb; E.bases[d] = rd
    def check(self, E, st, backs, t):
        for s, o in backs:
            if any(u.vars or u.guard is not TRUE or not isinstance(u.val, Poly) or u.val.cval() != 1 for u in o.st.mem[self.B].upds): return False
            for e in self.known:
                x = E.read_obj(o.st, o.st.mem[self.B], P(e), 1, 'I')
                if x.cval() != 1 and not E.pr.prove(o.st.pc, eq0(x - 1, 'I')): return False
            i, j = P(fresh('i', 'I')), P(fresh('j', 'I'))
            pc = o.st.pc + (ge(i, 0), lt(i, self.rows), ge(j, 0), lt(j, self.scale)); s2 = State(pc, o.st.mem)
            b = E.read_obj(s2, o.st.mem[self.B], j, 1, 'I'); d = E.read_obj(s2, o.st.mem[self.D], (i * self.scale + j) * 8, 8, 'R')
            if not E.pr.prove(pc + (Not(eq0(b, 'I')),), eq0(d - self.g(i, j), 'R')): return False
        return True
def merge(us):
    """the same write on several paths: one write, guarded by the disjunction"""
    groups = {}
    for u in us:
        s = {}; vs = []
        for i, (v, nn) in enumerate(u.vars): w = var('uv%d' % i); s[v.id] = P(w); vs.append((w, subst(nn, s)))
        q = Upd(u.kind, subst(u.off, s), subst(u.val, s) if isinstance(u.val, (Poly, Cond)) else u.val, u.width, u.sort, tuple(vs), subst(u.guard, s))
        groups.setdefault((q.off, q.val, q.width, q.sort, q.vars), []).append(frozenset(q.guard.a) if q.guard.k == 'and' else frozenset() if q.guard is TRUE else frozenset([q.guard]))
    out = []
    for (off, val, width, sort, vs), gs in groups.items():
        gs = list(dict.fromkeys(gs)); change = True
        while change:
            change = False
            for a in gs:
                for b in gs:
                    if len(a) == len(b) and len(a - b) == 1 and Not(next(iter(a - b))) in b:
                        gs = [g for g in gs if g is not a and g is not b] + ([a & b] if (a & b) not in gs else []); change = True; break
                if change: break
        for g in gs: out.append(Upd('pt', off, val, width, sort, vs, And(*sorted(g, key=str))))
    return out
class D(Fn):
    def __init__(self, M, label):
        Fn.__init__(self, M, label); self.c = Calls(); self.E.contracts = {r'create_array<bool>': self.bools}; self.E.contracts.update(ALLOC); self.c.install(self.E); self.st.ghost['vec'] = {}; self.st.ghost['x0'] = False; self.st.ghost['dir'] = None
        self.assume(ge(N, 0), ge(M_, 0)); self.pr.scales = [N, P(var('p'))]; self.E.block_sort = 'R'
        self.obj('f', const=True); self.f = Ptr('f', 0); self.rule = Rule(self.c, self); self.E.loop_hook = self.rule.hook
    def bools(self, E, st, a, ins, dem):
        cap = P(fresh('cap', 'I')); st.pc = st.pc + (ge(cap, a[0]), ge(cap, 0))
        n = E.new_obj(st, 'uninit', cap, 'blk', esize=1, sort='I', block=True); st.ghost['live'] = st.ghost['live'] | {n}
        E.write(st, a[1], cap, 8, 'I'); return Ptr(n, 0)
    def vec(self, name, size, base=None, sort='R', const=True):
        self.st.mem[name] = Obj(name, base or name, (), None, {'esize': 8, 'sort': sort, 'const': const}); self.st.mem[name + '.v'] = Obj(name + '.v', 'novec', (), None, {})
        self.c.put(self.st, Ptr(name + '.v', 0), (name, P(size))); return Ptr(name + '.v', 0)
    def out(self):
        self.st.mem['r.v'] = Obj('r.v', 'novec', (), None, {}); self.st.mem['r'] = Obj('r', 'uninit', (), None, {'esize': 8, 'sort': 'R'})
        self.c.put(self.st, Ptr('r.v', 0), ('r', ZERO)); return Ptr('r.v', 0)
    def check(self, st, i, want, what, facts=()):
        """element i of the result"""
        n = self.name(what); st = st.fork(*facts)
        if not self.pr.feasible(st.pc): return
        v = st.ghost['vec'].get('r.v+0') or self.c.get(st, Ptr('r.v', 0))
        try: got = self.E.read_obj(st, st.mem[v[0]], P(i) * 8, 8, 'R')
        except NeedSplit as e:
            if e.c in st.pc or Not(e.c) in st.pc: raise Unsupported('undecided case %s' % e.c)
            for c in (e.c, Not(e.c)):
                if self.pr.feasible(st.pc + (c,)): self.check(st, i, want, what, (c,))
            return
        if got is UNDEF: raise ObligationFailed(n, 'the element is not set on %s' % self.path(st))
        got = canon(self.c.ev(got, st.pc)); want = canon(want)
        if got == want: return
        ax = []
        for a in allatoms(got - want):
            if a.kind == 'APP' and a.args[0] == 'J': ax.append(Or(Not(app_bool('Par', a.args[1])), eq0(P(a), 'R')))
            if a.kind == 'APP' and a.args[0] == 'H':
                ax.append(eq0(P(a) - app('H', [a.args[1], a.args[3], a.args[2]], 'R'), 'R')); ax.append(Or(Not(app_bool('Par', a.args[1])), eq0(P(a), 'R')))
        if self.pr.prove(st.pc + tuple(ax), eq0(got - want, 'R')): return
        if Norm(self.pr).is_zero(got - want, st.pc): return
        if re.search(r'after:|HV\d+:', str(got)): raise Unsupported('the invariant of a loop is too weak: ' + str(got)[:200])
        raise ObligationFailed(n, 'is %s, required %s on %s' % (got, want, self.path(st)))
    def size(self, st, want):
        n = self.name('the result has the documented size'); v = self.c.get(st, Ptr('r.v', 0))
        if not self.E.same(st.pc, v[1], want): raise ObligationFailed(n, 'is %s, required %s' % (v[1], want))
    def known(self, v):
        s = self.__dict__.setdefault('seen', set()); r = v in s; s.add(v); return r
    def rng(self, name, hi): i = P(var(name)); return i, (ge(i, 0), lt(i, hi))
def canon(p):
    def f(n, a):
        if n == 'H': return H(*a)
    def rec(p):
        out = ZERO
        for m, c in p.d.items():
            t = P(c)
            for a, e in m:
                a = ATOMS[a]
                if a.kind == 'APP': q = (H if a.args[0] == 'H' else J if a.args[0] == 'J' else lambda *x: P(a))(*a.args[1:])
                elif a.kind == 'SUM': q = P(mk_atom('SUM', (a.args[0], a.args[1], a.args[2], rec(a.args[3])), a.sort))
                elif a.kind == 'ITE': q = ite(a.args[0], rec(a.args[1]), rec(a.args[2]))
                else: q = P(a)
                for _ in range(abs(e)): t = t * q if e > 0 else t / q
            out = out + t
        return out
    return rec(P(p))
def allatoms(p):
    out = []
    def go(x):
        if isinstance(x, (Poly,)):
            for a in x.atoms():
                a = ATOMS[a]
                if a not in out: out.append(a); [go(y) for y in a.args]
        elif isinstance(x, Cond): [go(y) for y in x.a]
    go(p); return out
# ------------------------------------------------------------------------------------------------ contracts
def jacobian(M, which):
    d = D(M, which); x = d.vec('x', N, 'X'); r = d.out()
    if which != 'jac': d.st.ghost['x0'] = True; d.c.put(d.st, r, ('r', N * M_))
    for st, _ in d.call('w_' + which, [d.f, x, r]):
        i, fi = d.rng('i', M_); j, fj = d.rng('j', N); d.size(st, N * M_)
        d.check(st, i * N + j, J(i, j), 'element i n + j is the partial of component i with respect to x_j', fi + fj)
    return d.done()
def hessian(M, which):
    d = D(M, 'Hessian (%s)' % ('weights' if which == 'hesw' else 'one component')); x = d.vec('x', N, 'X'); r = d.out()
    if which == 'hesw': arg = d.vec('w', M_)
    else: arg, f = d.rng('l', M_); d.assume(*f)
    for st, _ in d.call('w_' + which, [d.f, x, arg, r]):
        j, fj = d.rng('j', N); k, fk = d.rng('k', N); d.size(st, N * N)
        if which == 'hesw': a = fresh('a', 'I'); want = mk_sum(a, ZERO, M_ - 1, sel('w', P(a) * 8, 'R') * H(P(a), j, k))
        else: want = H(arg, j, k)
        d.check(st, j * N + k, want, 'element j n + k is the second partial with respect to x_j and x_k', fj + fk)
    return d.done()
def one(M, which):
    d = D(M, 'ForOne' if which == 'forone' else 'RevOne'); x = d.vec('x', N, 'X'); r = d.out(); q, f = d.rng('a', N if which == 'forone' else M_); d.assume(*f)
    for st, _ in d.call('w_' + which, [d.f, x, q, r]):
        if which == 'forone': i, fi = d.rng('i', M_); d.size(st, M_); d.check(st, i, J(i, q), 'element i is the partial of component i', fi)
        else: j, fj = d.rng('j', N); d.size(st, N); d.check(st, j, J(q, j), 'element j is the partial with respect to x_j', fj)
    return d.done()
def two(M, which):
    p = P(var('p')); d = D(M, 'ForTwo' if which == 'fortwo' else 'RevTwo'); d.assume(ge(p, 0)); x = d.vec('x', N, 'X'); r = d.out()
    a = d.vec('a', p, sort='I'); b = d.vec('b', p, sort='I')
    def rd(name, hi):
        def f(E, s, o, off, w, sort):
            v = sel(name, off, 'I')
            l = exact_div(off, P(8))
            if l is None: raise Unsupported('index vector')
            if v.cval() is None and len(v.d) == 1 and not d.known(v):
                for c in (ge(v, 0), Or(lt(l, 0), ge(l, p), lt(v, hi))): d.pr.axioms.append(c)
            return v
        d.E.bases[name] = f
    rd('a', N if which == 'fortwo' else M_); rd('b', N)
    d.pr.axioms.append(Or(le(p, 0), ge(N, 1)))
    for st, _ in d.call('w_' + which, [d.f, x, a, b, r]):
        l, fl = d.rng('l', p); al = sel('a', l * 8, 'I'); bl = sel('b', l * 8, 'I')
        fl = fl + (ge(al, 0), lt(al, N if which == 'fortwo' else M_), ge(bl, 0), lt(bl, N))
        if which == 'fortwo': i, fi = d.rng('i', M_); d.size(st, M_ * p); d.check(st, i * p + l, H(i, al, bl), 'element i p + l is the second partial of component i with respect to x_j[l] and x_k[l]', fl + fi)
        else: k, fk = d.rng('k', N); d.size(st, N * p); d.check(st, k * p + l, H(al, bl, k), 'element k p + l is the second partial of component i[l] with respect to x_j[l] and x_k', fl + fk)
    return d.done()
TASKS = [(jacobian, 'jacfor'), (jacobian, 'jacrev'), (jacobian, 'jac'), (hessian, 'hesl'), (hessian, 'hesw'), (one, 'forone'), (one, 'revone'), (two, 'revtwo'), (two, 'fortwo')]
def add(ctx):
    M = ctx.module_of(load, 'drivers')
    if M is not None:
        for f, w in TASKS: ctx.task('driver ' + w, f, M, w)
if __name__ == '__main__':
    import time
    M = load(); names = sys.argv[1:]
    for f, w in TASKS:
        if names and w not in names: continue
        t0 = time.time()
        try: log = f(M, w); print('OK  ', w, log, '%.1fs' % (time.time() - t0))
        except (Unsupported, ObligationFailed) as e:
            print('FAIL', w, type(e).__name__, str(e)[:900], '%.1fs' % (time.time() - t0))
            if len(names) == 1: raise
        sys.stdout.flush()
