"""Contracts of single functions: objects with symbolic fields, ownership of allocated blocks, postconditions on every path."""
import re, z3
from terms import *
from symex import *
from prover import Prover
from normal import Norm
import llir
def consts(M):
    K = {}
    for n, line in M.globals.items():
        m = re.search(r'@K_(\w+)$', n)
        if m: K[m.group(1)] = int(re.search(r'i64 (-?\d+)', line).group(1))
    return K
class Fn:
    """one function under contract"""
    def __init__(self, M, label, axioms=()):
        self.M = M; self.pr = Prover(); self.pr.axioms = list(axioms); self.E = Engine(M, self.pr); self.label = label
        self.st = State(); self.log = []; self.K = consts(M); self.outs = None; self.nobl = 0
        self.E.contracts = dict(ALLOC)
        self.st.ghost['live'] = frozenset()
    # ------------------------------------------------------------ pre-state
    def obj(self, name, fields=None, const=False, **meta):
        """object with the given fields {offset: value}; other reads are an error"""
        if const: meta['const'] = True
        self.st.mem[name] = Obj(name, name, (), None, meta)
        if fields is not None:
            def rd(E, s, o, off, w, sort):
                c = off.cval()
                if c is not None and int(c) in fields: return fields[int(c)]
                raise Unsupported('field of %s at %s' % (name, off))
            self.E.bases[name] = rd
        return Ptr(name, 0)
    def block(self, name, esize, sort, size=None, const=False):
        """allocated block (owned by some container) of elements"""
        m = {'esize': esize, 'sort': sort, 'block': True}
        if const: m['const'] = True
        self.st.mem[name] = Obj(name, name, (), size, m)
        self.st.ghost['live'] = self.st.ghost['live'] | {name}
        return Ptr(name, 0)
    def plain(self, name, esize, sort, const=False, base=None, **meta):
        m = dict(meta); m.update({'esize': esize, 'sort': sort})
        if const: m['const'] = True
        self.st.mem[name] = Obj(name, base or name, (), None, m); return Ptr(name, 0)
    def unsigned(self, base):
        E = self.E
        def rd(E, s, o, off, w, sort):
            v = sel(base, off, sort, w)
            if sort == 'I':
                c = ge(v, 0)
                if c not in E.pr.axioms: E.pr.axioms.append(c)
            return v
        E.bases[base] = rd
    def assume(self, *cs): self.pr.axioms += list(cs)
    # ------------------------------------------------------------ run
    def call(self, wrapper, args):
        self.outs = [(s, r) for s, r in self.E.call(self.st.fork(), '@' + wrapper, args) if self.pr.feasible(s.pc)]
        if not self.outs: raise ObligationFailed('%s: no path returns' % self.label)
        return self.outs
    def path(self, st):
        s = ' and '.join(str(c) for c in st.pc); return s if len(s) < 700 else s[:250] + ' ... ' + s[-450:]
    # ------------------------------------------------------------ obligations
    def name(self, what):
        n = '%s: %s' % (self.label, what)
        if n not in self.log: self.log.append(n)
        return n
    def eq(self, st, got, want, what):
        n = self.name(what)
        if isinstance(got, Ptr) or isinstance(want, Ptr):
            if not (isinstance(got, Ptr) and isinstance(want, Ptr) and got.obj == want.obj and self.E.same(st.pc, got.off, want.off)):
                raise ObligationFailed(n, 'is %s, required %s on %s' % (got, want, self.path(st)))
            return
        if isinstance(got, Cond) or isinstance(want, Cond): return self.iff(st, got, want, what)
        if got is UNDEF: raise ObligationFailed(n, 'is indeterminate, required %s on %s' % (want, self.path(st)))
        want = P(want)
        if got == want: return
        if got.is_int() and want.is_int() and self.pr.prove(st.pc, eq(got, want)): return
        if Norm(self.pr).is_zero(got - want, st.pc): return
        if self.pr.prove(st.pc, eq0(got - want)): return
        raise ObligationFailed(n, 'is %s, required %s on %s' % (got, want, self.path(st)))
    def iff(self, st, got, want, what):
        n = self.name(what)
        g = got if isinstance(got, Cond) else i2b(got); w = want if isinstance(want, Cond) else i2b(want)
        if g is w: return
        for a, b in ((g, w), (w, g)):
            if not self.pr.prove(st.pc + (a,), b): raise ObligationFailed(n, 'is %s, required %s on %s' % (got, want, self.path(st)))
    def prove_q(self, pc, goal, insts=()):
        """proof with universally quantified facts instantiated at the given terms and at the bound variables of the goal"""
        if goal.k == 'and': return all(self.prove_q(pc, g, insts) for g in goal.a)
        if goal.k == 'forall':
            k = P(fresh('sk', 'I')); insts = tuple(insts) + (k,)
            pc = tuple(pc) + (ge(k, goal.a[1]), le(k, goal.a[2])); goal = subst(goal.a[3], {goal.a[0]: k})
        facts = []
        for c in pc:
            for x in (c.a if c.k == 'and' else (c,)):
                facts.append(x)
                if x.k == 'forall':
                    for t in insts: facts.append(Or(lt(t, x.a[1]), gt(t, x.a[2]), subst(x.a[3], {x.a[0]: t})))
        return self.pr.prove(tuple(facts), goal)
    def holds(self, st, c, what, insts=()):
        n = self.name(what)
        if not self.pr.prove(st.pc, c) and not self.prove_q(st.pc, c, insts): raise ObligationFailed(n, '%s does not hold on %s' % (c, self.path(st)))
    def true(self, c, what, detail=''):
        n = self.name(what)
        if not c: raise ObligationFailed(n, detail)
    def read(self, st, ptr, off, width, sort):
        if not isinstance(ptr, Ptr) or ptr.obj is None: raise ObligationFailed('%s: access through %r' % (self.label, ptr))
        o = self.E.getobj(st, ptr.obj)
        return self.E.read_obj(st, o, ptr.off + off, width, sort)
    def field(self, st, obj, off, sort='I', width=8):
        v = self.E.read_obj(st, st.mem[obj], P(off), width, sort)
        return v
    def done(self): return list(self.log)
# ---------------------------------------------------------------- allocator contracts
def _alloc(E, st, size, esize=8, sort=None):
    n = E.new_obj(st, 'uninit' if not getattr(E, 'block_any', False) else 'blk%d' % len(st.mem), size, 'blk', esize=esize, sort=sort or E.__dict__.get('block_sort', 'R'), block=True)
    st.ghost['live'] = st.ghost['live'] | {n}
    return n
def get_memory(E, st, a, ins, dem):
    cap = P(fresh('cap', 'I'))
    st.pc = st.pc + (ge(cap, a[0]), ge(cap, 1))
    es = getattr(E, 'block_esize', 8)
    n = _alloc(E, st, cap, es)
    E.write(st, a[1], cap, 8, 'I')
    return Ptr(n, 0)
def return_memory(E, st, a, ins, dem):
    p = a[0]
    if not isinstance(p, Ptr) or p.obj not in st.ghost['live'] or p.off.cval() != 0:
        raise ObligationFailed('memory is returned to the allocator that is not an allocated block (or twice)', str(p))
    st.ghost['live'] = st.ghost['live'] - {p.obj}
    o = st.mem[p.obj]
    base = 'freed'
    st.mem[p.obj] = Obj(o.name, base, (), o.size, dict(o.meta, const=True))
    E.bases['freed'] = _freed
    return None
def _freed(E, s, o, off, w, sort): raise ObligationFailed('a block is read after it was returned to the allocator', o.name)
def create_array(E, st, a, ins, dem):
    cap = P(fresh('cap', 'I'))
    st.pc = st.pc + (ge(cap, a[0]), ge(cap, 0))
    es = getattr(E, 'block_esize', 8)
    n = _alloc(E, st, cap * es, es)
    E.write(st, a[1], cap, 8, 'I')
    return Ptr(n, 0)
ALLOC = {r'thread_alloc::create_array<': create_array, r'thread_alloc::delete_array<': return_memory,
         r'thread_alloc::get_memory\(': get_memory, r'thread_alloc::return_memory\(': return_memory}
# ---------------------------------------------------------------- bit vectors
class Bits:
    """machine words: integer terms with bit operations as 64 bit vectors"""
    W = 64
    def __init__(self, prover=None): self.a = {}; self.side = []; self.pr = prover
    def poly(self, p):
        r = z3.BitVecVal(0, self.W)
        for m, c in p.d.items():
            if c.denominator != 1: raise Unsupported('fraction in a machine word')
            t = z3.BitVecVal(int(c), self.W)
            for a, e in m:
                if e < 0: raise Unsupported('quotient in a machine word')
                for _ in range(e): t = t * self.atom(ATOMS[a])
            r = r + t
        return r
    def atom(self, a):
        r = self.a.get(a.id)
        if r is not None: return r
        if a.kind == 'APP' and a.args[0] in ('and', 'or', 'xor', 'shl', 'lshr'):
            x = self.poly(a.args[1]); y = self.poly(a.args[2]); op = a.args[0]
            r = x & y if op == 'and' else x | y if op == 'or' else x ^ y if op == 'xor' else x << y if op == 'shl' else z3.LShR(x, y)
        elif a.kind == 'APP' and a.args[0] == 'mod': r = z3.URem(self.poly(a.args[1]), self.poly(a.args[2]))
        elif a.kind == 'ITE': r = z3.If(self.cond(a.args[0]), self.poly(a.args[1]), self.poly(a.args[2]))
        elif a.kind == 'B2I': r = z3.If(self.cond(a.args[0]), z3.BitVecVal(1, self.W), z3.BitVecVal(0, self.W))
        else: r = z3.BitVec('w%d' % a.id, self.W)
        self.a[a.id] = r
        return r
    def cond(self, c):
        k = c.k
        if k == 'true': return z3.BoolVal(True)
        if k == 'false': return z3.BoolVal(False)
        if k == 'not': return z3.Not(self.cond(c.a[0]))
        if k == 'and': return z3.And([self.cond(x) for x in c.a])
        if k == 'or': return z3.Or([self.cond(x) for x in c.a])
        if k == 'iff': return self.cond(c.a[0]) == self.cond(c.a[1])
        if k == 'eq0': return self.poly(c.a[0]) == 0
        if k == 'bvar': return z3.Bool('b%d' % c.a[0].id)
        if k == 'le0':
            pos = Poly({m: v for m, v in c.a[0].d.items() if v > 0}); neg = Poly({m: -v for m, v in c.a[0].d.items() if v < 0})
            return z3.ULE(self.poly(pos), self.poly(neg))
        raise Unsupported('condition %s on a machine word' % k)
    def bit(self, p, k):
        """bit number k (z3 bit vector or term) of word p"""
        k = self.poly(k) if isinstance(k, Poly) else k
        return z3.Extract(0, 0, z3.LShR(self.poly(p), k)) == 1
    def prove(self, goal, facts=()):
        s = z3.Solver(); s.set('timeout', 10000)
        for f in facts: s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unknown: raise Unsupported('bit vector query gave no answer')
        return r == z3.unsat
# ---------------------------------------------------------------- loops by invariant
def inv_loop(v, pattern, inv, only=None):
    """loops of the functions that match pattern are replaced by their invariant: inv(st, [phi values]) -> conditions.
    The loop may not change memory; integer header phis only."""
    old = v.E.loop_hook
    def hook(E, st, env, f, L, prev):
        if old is not None:
            r = old(E, st, env, f, L, prev)
            if r is not None: return r
        if not re.search(pattern, E.M.dem.get(f.name, f.name)): return None
        H, init = E.loop_entry(st, env, f, L, prev)
        if any(ph.ty[0] != 'int' for ph in H.phis): return None
        if only is not None and not only(f, L, init): return None
        order = [ph.res for ph in H.phis]
        for c in inv(st, [init[x] for x in order]): v.holds(st, c, 'loop invariant holds at entry')
        e1 = dict(env); new = [P(fresh('lv', 'I')) for _ in order]
        for x, n in zip(order, new): e1[x] = n
        s1 = st.fork(*inv(st, new))
        mem0 = {n: o.upds for n, o in s1.mem.items()}
        out = []
        for o in E.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header):
            if not v.pr.feasible(o.st.pc): continue
            if any(n in mem0 and ob.upds != mem0[n] for n, ob in o.st.mem.items()): raise Unsupported('loop with an invariant changes memory')
            if o.kind == 'edge' and o.data[1] == L.header:
                vals = []
                for ph in H.phis:
                    x = [w for w, pb in ph.a if pb == o.data[0]][0]; vals.append(E.coerce(E.const(x, ph.ty, o.st, o.env), ph.ty))
                for c in inv(o.st, vals): v.holds(o.st, c, 'loop invariant is preserved')
            elif o.kind == 'ret': out.append((o.st, o.env, o.data, None))
            else: out.append((o.st, o.env, o.data[0], o.data[1]))
        return out
    v.E.loop_hook = hook
