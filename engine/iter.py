"""One arbitrary iteration of a loop of a real function.

The function is executed symbolically up to the loop (other loops on the way by their summary, else by havoc of what they
change); then the state is replaced by an arbitrary one that satisfies the given invariant, and the body is executed once.
The obligations are stated on the state after the body: the invariant is preserved and the contract of the iteration holds."""
from terms import *
from symex import *
from fn import *
import llir
from llir import materialise, loops
class Captured(Exception): pass
class Iter(Fn):
    def __init__(self, M, label, axioms=()):
        Fn.__init__(self, M, label, axioms); self.entries = 0; self.skip = False
    def unroll(self, limit=4):
        def hook(E, st, env, f, L, prev):
            try: return E.try_unroll(st, env, f, L, prev, False, limit)
            except Unsupported: return None
        return hook
    def find(self, E, f, regex):
        """headers of the outermost loops of f that call a function that matches regex"""
        materialise(f); out = []
        L = loops(f)
        for h, l in L.items():
            for b in l.body:
                if any(i.op == 'call' and i.a[0][0] == 'glob' and re.search(regex, E.M.dem.get(i.a[0][1], i.a[0][1])) for i in f.blocks[b].ins): out.append((h, l)); break
        return [h for h, l in out if not any(h != h2 and h in l2.body for h2, l2 in out)]
    def havoc_loop(self, E, st, env, f, L, prev):
        """exit states of a loop after any number of iterations: everything it changes is arbitrary"""
        H, init = E.loop_entry(st, env, f, L, prev); ch = set(); n = 0
        while True:
            n += 1
            s1 = st.fork(); e1 = dict(env)
            for c in ch: o = s1.mem[c]; s1.mem[c] = Obj(o.name, 'any%d:%s' % (id(L) % 9973, c), (), o.size, o.meta); self.unsigned(s1.mem[c].base)
            for ph in H.phis:
                v = init[ph.res]
                if ph.ty[0] == 'int' and ph.ty[1] > 1: e1[ph.res] = P(fresh('any', 'I')); s1 = s1.fork(ge(e1[ph.res], 0))
                elif ph.ty[0] == 'int': e1[ph.res] = fresh_bool('any')
                elif isinstance(v, Ptr): e1[ph.res] = Ptr(v.obj, P(fresh('any', 'I')))
                else: raise Unsupported('loop before the iteration')
            outs = [o for o in E.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header) if E.pr.feasible(o.st.pc)]
            new = {c for o in outs for c in o.st.mem if c in st.mem and (o.st.mem[c].upds != s1.mem[c].upds or o.st.mem[c].base != s1.mem[c].base)} - ch
            if any(o.st.ghost[g] is not s1.ghost[g] for o in outs for g in s1.ghost): raise Unsupported('loop before the iteration changes the ghost state')
            if not new: break
            ch |= new
            if n > 8: raise Unsupported('loop before the iteration')
        return [(o.st, o.env, o.data, None) if o.kind == 'ret' else (o.st, o.env, o.data[0], o.data[1]) for o in outs if o.kind == 'ret' or o.data[1] != L.header]
    def iterate(self, wrapper, args, regex, prep, exits=False, inner=None):
        """prep(self, st, env, phis {result: (type, initial value)}) -> list of (st, {phi: value}); returns list of (pre-state, phis, outcome, next phi values)"""
        E = self.E; res = []
        heads = {}
        def hook(E, st, env, f, L, prev):
            hs = heads.setdefault(f.name, self.find(E, f, regex))
            if L.header in hs:
                self.entries += 1
                H, init = E.loop_entry(st, env, f, L, prev)
                for s1, pv in prep(st, env, f, {ph.res: (ph.ty, init[ph.res]) for ph in H.phis}):
                    e1 = dict(env); e1.update(pv); pre = s1.fork()
                    E.loop_hook = inner
                    try: outs = E.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header)
                    finally: E.loop_hook = hook
                    for o in outs:
                        if not E.pr.feasible(o.st.pc): continue
                        if o.kind == 'edge' and o.data[1] == L.header:
                            nx = {}
                            for ph in H.phis:
                                for v, pb in ph.a:
                                    if pb == o.data[0]: nx[ph.res] = E.coerce(E.const(v, ph.ty, o.st, o.env), ph.ty)
                            res.append((pre, pv, o, nx))
                        elif exits:
                            if o.kind == 'ret' or exits == 'edge': res.append((pre, pv, o, None)); continue
                            for o2 in E.run(o.st, o.env, f, o.data[1], o.data[0], None):
                                if o2.kind == 'ret' and E.pr.feasible(o2.st.pc): res.append((pre, pv, o2, None))
                return []
            if hs and self.skip:
                # the loop is left at its header after any number of iterations; prep makes all memory that it may change arbitrary
                H, init = E.loop_entry(st, env, f, L, prev); e1 = dict(env); s1 = st.fork(); out = []
                for ph in H.phis:
                    if ph.ty[0] == 'int' and ph.ty[1] > 1: e1[ph.res] = P(fresh('any', 'I')); s1 = s1.fork(ge(e1[ph.res], 0))
                    elif ph.ty[0] == 'int': e1[ph.res] = fresh_bool('any')
                    else: raise Unsupported('loop before the iteration')
                outs = E.run(s1, e1, f, L.header, prev, {L.header}, skip_loop=L.header)
                for o in outs:
                    if o.kind == 'ret': raise Unsupported('loop before the iteration')
                    if o.data[1] not in L.body and E.pr.feasible(o.st.pc): out.append((o.st, o.env, o.data[0], o.data[1]))
                if not out: raise Unsupported('loop before the iteration')
                return out
            if hs:
                try: return E.loop_default(st, env, f, L, prev)
                except (Unsupported, ObligationFailed, NeedSplit): return self.havoc_loop(E, st, env, f, L, prev)
            return E.loop_default(st, env, f, L, prev)
        E.loop_hook = hook
        try: E.call(self.st.fork(), '@' + wrapper, args)
        finally: E.loop_hook = None
        if not self.entries: raise Unsupported('the loop was not found')
        if not res: raise Unsupported('no iteration returns')
        return res
