"""One arbitrary iteration of the main loop of a sweep.

The loop state is havocked: header phis take either a role (an expression of the ghost position I, checked at loop entry
and preserved by the iteration) or an arbitrary value; every object the iteration may change is replaced by an arbitrary
one.  The obligations of an iteration are stated by the caller on the outcomes at the back edge."""
from terms import *
from symex import *
import llir
class Iteration:
    """target: mangled name of the function; roles: name -> (expression at I, expression at I + 1), tried in order"""
    def __init__(self, E, target, I, roles, keep=(), fixed=None):
        self.E = E; self.target = target; self.I = I; self.roles = roles; self.keep = set(keep)
        self.assign = fixed            # phi -> role name or None
        self.havoc = set(); self.outs = None; self.rebase = {}
        E.loop_hook = self.hook
        self.depth = 0
    def hook(self, E, st, env, f, L, prev):
        if f.name != self.target or self.outs is not None: return None
        LL = llir.loops(f)
        big = max(LL.values(), key=lambda l: len(l.body))
        if L.header != big.header: return None
        if self.depth: return None
        self.depth += 1
        try: return self.iterate(st, env, f, L, prev)
        finally: self.depth -= 1
    def start(self, st, env, f, L, prev):
        """havocked state at the loop header"""
        E = self.E; H, init = E.loop_entry(st, env, f, L, prev)
        e1 = dict(env); s1 = st.fork()
        for n in self.havoc:
            o = s1.mem[n]
            b = self.rebase.get(n) or 'HV' + str(n)
            s1.mem[n] = Obj(o.name, b, (), o.size, o.meta)
        for ph in H.phis:
            r = self.assign.get(ph.res); v0 = init[ph.res]
            if r is not None:
                v = self.roles[r][0]; e1[ph.res] = Ptr(v0.obj, v) if isinstance(v0, Ptr) else v
            elif ph.ty[0] == 'ptr':
                e1[ph.res] = Ptr(v0.obj, P(fresh('ph', 'I'))) if isinstance(v0, Ptr) else UNDEF
            elif ph.ty[0] == 'fp': e1[ph.res] = P(fresh('ph', 'R'))
            elif ph.ty[1] == 1: e1[ph.res] = fresh_bool('ph')
            else: e1[ph.res] = P(fresh('ph', 'I'))
        return H, init, s1, e1
    def iterate(self, st, env, f, L, prev):
        E = self.E; H, init = E.loop_entry(st, env, f, L, prev)
        base = {}
        cand = {}
        for ph in H.phis:
            v0 = init[ph.res]
            v0 = v0.off if isinstance(v0, Ptr) else v0
            cand[ph.res] = [r for r, (a, b, z) in self.roles.items() if isinstance(v0, Poly) and E.same(st.pc, v0, P(z))] if ph.ty[0] in ('int', 'ptr') else []
        if self.assign is None: self.assign = {p: (c[0] if c else None) for p, c in cand.items()}; infer = True
        else:
            infer = False
            for p, r in self.assign.items():
                if r is not None and r not in cand.get(p, ()): raise ObligationFailed('loop invariant %s at entry' % r, p)
        for rnd in range(40):
            H, init, s1, e1 = self.start(st, env, f, L, prev)
            ghost0 = dict(s1.ghost)
            start = dict(s1.mem)
            outs = E.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header)
            again = False; back = []
            for o in outs:
                if o.kind == 'ret': 
                    if E.pr.feasible(o.st.pc): back.append(('ret', o)); continue
                if o.kind == 'edge' and o.data[1] != L.header:
                    if E.pr.feasible(o.st.pc): back.append(('exit', o))
                    continue
                if not E.pr.feasible(o.st.pc): continue
                back.append(('back', o))
                for n, ob in start.items():
                    if n in self.havoc or n in self.keep: continue
                    nw = o.st.mem.get(n)
                    if nw is not None and nw.upds != ob.upds: self.havoc.add(n); again = True
                for ph in H.phis:
                    r = self.assign.get(ph.res)
                    if r is None: continue
                    for v, pb in ph.a:
                        if pb == o.data[0]:
                            x = E.coerce(E.const(v, ph.ty, o.st, o.env), ph.ty); x = x.off if isinstance(x, Ptr) else x
                            if not (isinstance(x, Poly) and E.same(o.st.pc, x, self.roles[r][1])):
                                if not infer: raise ObligationFailed('loop invariant %s is not preserved' % r, '%s becomes %s, required %s' % (ph.res, x, self.roles[r][1]))
                                c = cand[ph.res]; k = c.index(r) + 1
                                self.assign[ph.res] = c[k] if k < len(c) else None; again = True
            if not again: self.outs = (start, back); self.L = L; raise Done()
        raise Unsupported('iteration state did not stabilise')
class Done(Exception): pass
def unsigned_base(E, name):
    """elements of an array of unsigned integers"""
    def rd(E, s, o, off, w, sort):
        v = sel(name, off, sort, w)
        c = ge(v, 0)
        if c not in E.pr.axioms: E.pr.axioms.append(c)
        return v
    E.bases[name] = rd
