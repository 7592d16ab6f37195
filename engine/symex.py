"""Symbolic execution / verification-condition generation over LLVM IR of the real code."""
import re, os
from terms import *
import llir
from llir import materialise, loops, sizeof, field_off
from prover import Prover, STATS

class Unsupported(Exception): pass
class ObligationFailed(Exception):
    """a proof obligation that could not be discharged"""
    def __init__(self, name, detail=''):
        Exception.__init__(self, name + (': ' + detail if detail else ''))
        self.name = name; self.detail = detail
class Budget(Unsupported): pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = P(off)
    def __repr__(self): return '&%s+%s' % (self.obj, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off
    def __hash__(self): return hash((self.obj, self.off))
NULL = Ptr(None, 0)
class FuncPtr:
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, FuncPtr) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return 'fn:' + self.name
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Upd:
    """kind: 'pt' (plain store), 'acc' (+= scatter).  vars: tuple of (VAR atom, N) meaning 0 <= v < N.
    'havoc': contents of [off, off+width) bytes become SEL(val, .)"""
    __slots__ = ('kind', 'vars', 'off', 'val', 'width', 'guard', 'sort')
    def __init__(self, kind, off, val, width, sort, vars=(), guard=TRUE):
        self.kind = kind; self.off = off; self.val = val; self.width = width; self.sort = sort; self.vars = vars; self.guard = guard
    def __repr__(self):
        return '%s%s [%s]%s %s%s' % (self.kind, ''.join('{%s<%s}' % (ATOMS[v.id], n) for v, n in self.vars), self.off, '=' if self.kind == 'pt' else '+=', self.val, '' if self.guard is TRUE else ' if %s' % self.guard)

class Obj:
    """immutable content of one memory object"""
    __slots__ = ('name', 'base', 'upds', 'size', 'meta')
    def __init__(self, name, base, upds=(), size=None, meta=None):
        self.name = name; self.base = base; self.upds = upds; self.size = size; self.meta = meta or {}
    def with_upd(self, u): return Obj(self.name, self.base, self.upds + (u,), self.size, self.meta)

class State:
    __slots__ = ('pc', 'mem', 'trace', 'ghost')
    def __init__(self, pc=(), mem=None, trace=(), ghost=None):
        self.pc = pc; self.mem = mem if mem is not None else {}; self.trace = trace; self.ghost = ghost if ghost is not None else {}
    def fork(self, *conds):
        return State(self.pc + tuple(c for c in conds if c is not TRUE and c not in self.pc), dict(self.mem), self.trace, dict(self.ghost))

class Outcome:
    __slots__ = ('st', 'env', 'kind', 'data')
    def __init__(self, st, env, kind, data): self.st = st; self.env = env; self.kind = kind; self.data = data

_layer = [0]

def radix_split(d, s):
    """(T, L) with d = T s + L where s is one variable and T, L do not contain it"""
    if len(s.d) != 1: return None
    (m, c), = s.d.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1: return None
    return coeff(d, ATOMS[m[0][0]])
class Engine:
    def __init__(self, module, prover=None):
        self.M = module
        self.pr = prover or Prover()
        self.contracts = {}     # regex on demangled name -> handler(engine, state, args, instr, dem)
        self._ck = {}
        self.layers = {}        # base name -> Obj beneath
        self.bases = {}         # base name -> reader(engine, st, off, width, ty) or None
        self.loop_hook = None   # f(engine, st, env, func, loop) -> list of outcomes or None
        self.max_unroll = 40
        self.max_states = 4000
        self.steps = 0; self.max_steps = 2000000
        self.depth = 0
        self.bounded = []       # loops that were unrolled with a stated bound
        self.summarised = 0
        self.functions = set()
        self.unchecked = set()
        self.frame_objs = None
        self.loop_depth = 0
        self.reads_log = None
        self.memind = {}        # (object, offset, width) -> step: memory cells that are induction variables of the present loop
        self.frozen = None      # objects that the present loop does not write

    # ------------------------------------------------------------ contracts
    def find_contract(self, fname):
        r = self._ck.get(fname, 0)
        if r == 0:
            dem = self.M.dem.get(fname, fname)
            r = None
            for pat, h in self.contracts.items():
                if re.search(pat, dem): r = h; break
            self._ck[fname] = r
        return r
    # ------------------------------------------------------------ values
    def const(self, v, ty, st, env):
        k = v[0]
        if k == 'loc':
            try: return env[v[1]]
            except KeyError: raise Unsupported('undefined value %s' % v[1])
        if k == 'int':
            if ty[0] == 'int' and ty[1] == 1: return TRUE if v[1] else FALSE
            return P(v[1])
        if k == 'fp':
            if isinstance(v[1], tuple): raise Unsupported('fp constant')
            if v[1] != v[1]: return P(mk_atom('VAR', ('NAN', 'R'), 'R'))
            if v[1] in (float('inf'), float('-inf')):
                s = P(mk_atom('VAR', ('INFTY', 'R'), 'R')); return s if v[1] > 0 else -s
            return P(Fr(v[1]))
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'glob':
            if v[1] in self.M.funcs: return FuncPtr(v[1])
            return Ptr('G' + v[1], 0)
        if k == 'zero': return self.zero(ty)
        if k == 'agg': return [self.const(x, t, st, env) for t, x in v[1]]
        if k == 'cexpr':
            if v[1] == 'getelementptr':
                base = self.const(v[3][0][1], v[3][0][0], st, env)
                return self.gep(v[2], base, [(t, self.const(x, t, st, env)) for t, x in v[3][1:]])
            if v[1] in ('bitcast',): return self.const(v[3][0][1], v[3][0][0], st, env)
        raise Unsupported('constant %s' % (v,))
    def zero(self, ty):
        if ty[0] == 'int': return FALSE if ty[1] == 1 else ZERO
        if ty[0] == 'fp': return ZERO
        if ty[0] == 'ptr': return NULL
        if ty[0] == 'named': ty = self.M.types[ty[1]]
        if ty[0] == 'struct': return [self.zero(t) for t in ty[1]]
        if ty[0] == 'arr': return [self.zero(ty[2])] * ty[1]
        raise Unsupported('zero %s' % (ty,))
    def gep(self, ty, base, idx):
        if base is UNDEF: return UNDEF
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        off = base.off
        first = True
        for t, i in idx:
            if not isinstance(i, Poly): raise Unsupported('gep index')
            if first:
                off = off + i * sizeof(self.M, ty); first = False; continue
            r = ty
            if r[0] == 'named': r = self.M.types[r[1]]
            if r[0] == 'struct':
                o, ty = field_off(self.M, r, int(i.cval())); off = off + o
            elif r[0] in ('arr', 'vec'):
                ty = r[2]; off = off + i * sizeof(self.M, ty)
            else: raise Unsupported('gep type')
        return Ptr(base.obj, off)
    # ------------------------------------------------------------ memory
    def sort_of(self, ty):
        if ty[0] == 'int': return 'B' if ty[1] == 1 else 'I'
        if ty[0] == 'fp': return 'R'
        if ty[0] == 'ptr': return 'P'
        return '?'
    def getobj(self, st, name):
        o = st.mem.get(name)
        if o is None:
            if name is not None and name.startswith('G@'):
                o = self.global_obj(name); st.mem[name] = o; return o
            raise Unsupported('access to unknown object %s' % name)
        return o
    def global_obj(self, name):
        line = self.M.globals.get(name[1:])
        if line is None: raise Unsupported('global %s' % name)
        m = re.search(r'\b(constant|global)\b\s*(.*)$', line)
        toks = llir.tokens(re.split(r', (?:comdat|align|section|!)', m.group(2))[0])
        c = llir.Cur(toks)
        ty = llir.parse_type(c)
        upds = []
        if c.peek() is not None and not re.search(r'\bexternal\b', line):
            init = llir.parse_value(c, ty)
            self._ginit(ty, init, 0, upds)
        o = Obj(name, 'GLOBAL' + name, tuple(upds), sizeof(self.M, ty) if ty[0] != 'named' or self.M.types[ty[1]] else None)
        if m.group(1) == 'constant': o.meta['const'] = True
        return o
    def _ginit(self, ty, v, off, upds):
        r = self.M.types[ty[1]] if ty[0] == 'named' else ty
        if v[0] == 'agg':
            if r[0] == 'struct':
                for i, (t, x) in enumerate(v[1]):
                    self._ginit(t, x, off + field_off(self.M, r, i)[0], upds)
            else:
                for i, (t, x) in enumerate(v[1]): self._ginit(t, x, off + i * sizeof(self.M, t), upds)
        elif v[0] == 'zero':
            if r[0] == 'struct':
                for i, t in enumerate(r[1]): self._ginit(t, ('zero', t), off + field_off(self.M, r, i)[0], upds)
            elif r[0] == 'arr':
                if r[1] <= 4096:
                    for i in range(r[1]): self._ginit(r[2], ('zero', r[2]), off + i * sizeof(self.M, r[2]), upds)
            else: upds.append(Upd('pt', P(off), self.zero(r), sizeof(self.M, r), self.sort_of(r)))
        elif v[0] == 'bytes':
            for i, b in enumerate(v[1]): upds.append(Upd('pt', P(off + i), P(b), 1, 'I'))
        else:
            upds.append(Upd('pt', P(off), self.const(v, r, None, {}), sizeof(self.M, r), self.sort_of(r)))

    def disjoint(self, pc, o1, w1, o2, w2):
        d = o1 - o2
        c = d.cval()
        if c is not None: return c >= w2 or -c >= w1
        if w1 == w2 and w1 > 1:
            # offsets are multiples of the width in every well formed access: equal or disjoint
            q = [x / w1 for x in d.d.values()]
            if all(x.denominator == 1 for x in q):
                return self.pr.prove(pc, Not(eq0(d, 'I'))) or self.radix(pc, d / w1)
        return self.pr.prove(pc, Or(ge(d, w2), le(d, -w1)))
    def radix(self, pc, d):
        """d = T s + L with |L| < s is not zero when T or L is not zero"""
        for s in self.pr.scales:
            r = radix_split(d, s)
            if r is None or not r[0].d: continue
            T, L = r
            if self.pr.prove(pc, And(lt(L, s), lt(-L, s))) and self.pr.prove(pc, Or(Not(eq0(T, 'I')), Not(eq0(L, 'I')))): return True
        return False
    def same(self, pc, o1, o2):
        d = o1 - o2
        if d.cval() is not None: return d.cval() == 0
        return self.pr.prove(pc, eq0(d, 'I'))
    def base_read(self, st, o, off, width, sort):
        b = o.base
        rd = self.bases.get(b)
        if rd is not None: return rd(self, st, o, off, width, sort)
        if b in self.layers and sort == 'P':
            return self.read_obj(st, self.layers[b], off, width, sort)
        if b == 'uninit': return UNDEF
        if b == 'zero':
            return {'I': ZERO, 'R': ZERO, 'P': NULL, 'B': FALSE}[sort]
        if sort == 'P':
            raise Unsupported('pointer read from %s at %s' % (o.name, off))
        if sort == 'B': return sel_bool(b, off)
        return sel(b, off, sort, width)
    def read_obj(self, st, o, off, width, sort, start=None):
        pc = st.pc
        pend = ZERO     # accumulations seen so far (on top of an older value)
        n = len(o.upds) if start is None else start
        for i in range(n - 1, -1, -1):
            u = o.upds[i]
            if u.kind == 'havoc':
                # region [off, off+width) havoced
                inside = And(ge(off, u.off), le(off + width, u.off + u.width))
                if self.pr.prove(pc, inside):
                    r = sel(u.val, off, sort, width) if sort != 'B' else sel_bool(u.val, off)
                    return r + pend if pend.d else r
                if self.pr.prove(pc, Or(ge(off, u.off + u.width), le(off + width, u.off))): continue
                rest = self.read_obj(st, o, off, width, sort, i)
                r = sel(u.val, off, sort, width)
                return ite(inside, r, rest) + pend
            if not u.vars:
                if u.guard is TRUE and u.width == width and self.same_quick(u.off, off): hit = True
                elif self.disjoint(pc, off, width, u.off, u.width): continue
                elif u.width == width and self.same(pc, u.off, off): hit = True
                elif u.width != width: raise Unsupported('overlapping access of different width in %s' % o.name)
                else: hit = None
                if u.kind == 'acc':
                    g = And(u.guard, TRUE if hit else eq(u.off, off))
                    pend = pend + ite(g, u.val, 0); continue
                if hit and u.guard is TRUE:
                    return self._addp(u.val, pend)
                rest = self.read_obj(st, o, off, width, sort, i)
                return self._addp(self._ite(And(u.guard, TRUE if hit else eq(u.off, off)), u.val, rest), pend)
            # quantified update
            hits = self.solve_hit(st, u, off, width)
            if hits is False: continue
            cond, val = hits
            if u.kind == 'acc':
                pend = pend + ite(cond, val, 0); continue
            if cond is TRUE: return self._addp(val, pend)
            rest = self.read_obj(st, o, off, width, sort, i)
            try: return self._addp(self._ite(cond, val, rest), pend)
            except NeedSplit:
                c = self.simp(pc, cond)
                if c is not TRUE and c is not FALSE: raise
                return self._addp(val if c is TRUE else rest, pend)
        return self._addp(self.base_read(st, o, off, width, sort), pend)
    def same_quick(self, a, b): return a == b
    def _addp(self, v, pend):
        if not pend.d: return v
        return v + pend
    def _ite(self, c, a, b):
        if c is TRUE: return a
        if c is FALSE: return b
        if isinstance(a, Poly) and isinstance(b, Poly): return ite(c, a, b)
        if isinstance(a, Cond) and isinstance(b, Cond): return Or(And(c, a), And(Not(c), b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return Ptr(a.obj, ite(c, a.off, b.off))
        if a is b or (type(a) is type(b) and not isinstance(a, (list,)) and a == b): return a
        raise NeedSplit(c)
    def solve_hit(self, st, u, off, width):
        """for a quantified update: False (no overlap) or (cond, value contribution at off)"""
        pc = st.pc
        if u.width != width:
            raise Unsupported('overlapping quantified access of different width')
        dep = [v for v, n in u.vars if v.id in u.off.vars()]
        fr = {v.id: P(fresh('h', 'I')) for v, n in u.vars}
        # try disjointness with fresh witnesses
        uoff = subst(u.off, fr)
        rng = []
        for v, n in u.vars:
            n2 = subst(n, fr); rng += [ge(fr[v.id], 0), lt(fr[v.id], n2)]
        if self.pr.prove(pc + tuple(rng), FALSE): return False
        d = uoff - off
        c = d.cval()
        if c is None or c != 0:
            if c is not None: 
                if abs(c) >= width: return False
                raise Unsupported('partial overlap')
            if self.pr.prove(pc + tuple(rng), Not(eq0(d, 'I'))): return False
        cond = u.guard; val = u.val
        if len(dep) == 2:
            if u.kind == 'acc': return self.scatter_acc(pc, u, dep, off, width)
            if len(u.vars) > 2: raise Unsupported('scatter over two variables')
            s2, inr = self.scatter2(pc, u, dep, off, width); inr = self.simp(pc, inr)
            if inr is FALSE: return False
            return And(inr, subst(cond, s2)), subst(val, s2) if isinstance(val, (Poly, Cond)) else val
        if len(dep) > 1: raise Unsupported('scatter over more than two variables')
        if dep:
            v = dep[0]
            cc = coeff(u.off, v)
            if cc is None: raise Unsupported('non affine scatter')
            t = exact_div(off - cc[1], cc[0])
            if t is None:
                t, same = self.column(pc, cc, off, width)
                if t is None: raise Unsupported('scatter stride')
                same = self.simp(pc, same)
                if same is FALSE: return False
                cond = And(cond, same)
            s = {v.id: t}
            n = [n for w, n in u.vars if w is v][0]
            if any(v.id in nn.vars() for w, nn in u.vars) or (n.vars() & {w.id for w, _ in u.vars}):
                # triangular ranges: handled only when the dependent variable bounds the others
                if n.vars() & {w.id for w, _ in u.vars}: raise Unsupported('triangular scatter')
            inr = And(ge(t, 0), lt(t, subst(n, s)))
            inr = self.simp(pc, inr)
            if inr is FALSE: return False
            cond = And(inr, subst(cond, s)); val = subst(val, s) if isinstance(val, (Poly, Cond)) else val
            rest = [(w, subst(nn, s)) for w, nn in u.vars if w is not v]
        else:
            rest = list(u.vars)
            d0 = eq0(u.off - off, 'I')
            if d0 is not TRUE and not self.pr.prove(pc, d0): cond = And(cond, d0)
        if rest:
            if u.kind != 'acc':
                # last write wins: value at the last index
                raise Unsupported('repeated plain store')
            ids = {w.id for w, _ in rest}
            if cond is not TRUE and (cond.vars() & ids): val = ite(cond, val, 0); cond = TRUE
            for w, nn in reversed(rest):
                val = mk_sum(w, ZERO, nn - 1, val)
        return cond, val
    def column(self, pc, cc, off, width):
        """v with width s v + cc[1] = off, given that both are in column c of a matrix with s columns: (v, equal columns)"""
        s = exact_div(cc[0], P(width)); a = exact_div(cc[1], P(width)); b = exact_div(P(off), P(width))
        if s is None or a is None or b is None: return None, None
        a = radix_split(a, s); b = radix_split(b, s)
        if a is None or b is None or not self.pr.prove(pc, And(ge(b[1], 0), lt(b[1], s), ge(a[1], 0), lt(a[1], s))): return None, None
        return b[0] - a[0], eq0(a[1] - b[1], 'I')
    def scatter_acc(self, pc, u, dep, off, width):
        """accumulation at f(a) s + b (or f(a) s - b) with 0 <= b < s: the sum over a of the terms at off"""
        ns = dict((v.id, n) for v, n in u.vars); ids = {v.id for v, n in u.vars}
        for b in dep:
            cb = coeff(u.off, b)
            if cb is None or cb[0].cval() not in (width, -width) or any(b.id in n.vars() for v, n in u.vars if v is not b): continue
            sg = 1 if cb[0].cval() == width else -1
            D = off - cb[1]; D = Poly({m: c / width for m, c in D.d.items()})
            for s in self.pr.scales:
                r = radix_split(D, s)
                if r is None or not self.pr.prove(pc, le(ns[b.id], s)): continue
                for e in (0, 1, -1):
                    T = r[0] + e; L = (r[1] - s * e) * sg
                    if L.vars() & ids or not self.pr.prove(pc, And(ge(L, 0), lt(L, s))): continue
                    m = {b.id: L}
                    val = ite(And(self.simp(pc, lt(L, ns[b.id])), eq0(T, 'I'), subst(u.guard, m)), subst(u.val, m), 0)
                    for w, nn in reversed([(v, n) for v, n in u.vars if v is not b]): val = mk_sum(w, ZERO, subst(nn, m) - 1, val)
                    return TRUE, val
        raise Unsupported('accumulating scatter over two variables')
    def scatter2(self, pc, u, dep, off, width):
        """the unique (v1, v2) with u.off = off when u.off = width (v1 s + v2) + c, 0 <= v2 < s"""
        ns = dict((v.id, n) for v, n in u.vars)
        for a, b in (dep, dep[::-1]):
            ca = coeff(u.off, a)
            if ca is None or ca[0].cval() is not None: continue
            cb = coeff(ca[1], b)
            if cb is None or cb[0].cval() != width: continue
            s = exact_div(ca[0], P(width))
            if s is None or a.id in ns[b.id].vars() or b.id in ns[a.id].vars(): continue
            D = off - cb[1]
            D = Poly({m: c / width for m, c in D.d.items()})
            r = radix_split(D, s)
            if r is None: continue
            T, L = r
            if not self.pr.prove(pc, And(ge(L, 0), lt(L, s))): continue
            if not self.pr.prove(pc, le(ns[b.id], s)): continue
            return {a.id: T, b.id: L}, And(ge(T, 0), lt(T, ns[a.id]), ge(L, 0), lt(L, ns[b.id]))
        raise Unsupported('scatter over two variables')
    def simp(self, pc, c):
        if c is TRUE or c is FALSE: return c
        if c.k == 'and': return And(*[self.simp(pc, x) for x in c.a])
        if self.pr.prove(pc, c): return TRUE
        if self.pr.prove(pc, Not(c)): return FALSE
        return c
    def load(self, st, p, ty):
        w = sizeof(self.M, ty)
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        if p.obj is None: raise ObligationFailed('null pointer read', str(p.off))
        o = self.getobj(st, p.obj)
        if ty[0] in ('struct', 'named', 'arr'):
            r = self.M.types[ty[1]] if ty[0] == 'named' else ty
            if r[0] == 'struct':
                return [self.load(st, Ptr(p.obj, p.off + field_off(self.M, r, i)[0]), t) for i, t in enumerate(r[1])]
            return [self.load(st, Ptr(p.obj, p.off + i * sizeof(self.M, r[2])), r[2]) for i in range(r[1])]
        if ty[0] == 'vec': raise Unsupported('vector load')
        s = self.sort_of(ty)
        if s == 'B': s = 'B'
        v = self.read_obj(st, o, p.off, w, s)
        return self.coerce(v, ty)
    def coerce(self, v, ty):
        if v is UNDEF: return v
        if ty[0] == 'int' and ty[1] == 1 and isinstance(v, Poly): return i2b(v)
        if ty[0] == 'int' and ty[1] > 1 and isinstance(v, Cond): return b2i(v)
        if ty[0] == 'ptr' and isinstance(v, Poly):
            if v.cval() == 0: return NULL
        if ty[0] == 'int' and isinstance(v, Ptr) and v.obj is None: return v.off
        return v
    def store(self, st, p, v, ty):
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        if p.obj is None: raise ObligationFailed('null pointer write', str(p.off))
        if ty[0] in ('struct', 'named', 'arr') :
            r = self.M.types[ty[1]] if ty[0] == 'named' else ty
            if v is UNDEF: return
            if r[0] == 'struct':
                for i, t in enumerate(r[1]): self.store(st, Ptr(p.obj, p.off + field_off(self.M, r, i)[0]), v[i], t)
            else:
                for i in range(r[1]): self.store(st, Ptr(p.obj, p.off + i * sizeof(self.M, r[2])), v[i], r[2])
            return
        w = sizeof(self.M, ty)
        self.write(st, p, v, w, self.sort_of(ty))
    def write(self, st, p, v, w, sort):
        o = self.getobj(st, p.obj)
        if o.meta.get('const'): raise ObligationFailed('write to a constant object', p.obj)
        hook = o.meta.get('on_write')
        if hook: hook(self, st, p, v, w)
        upds = o.upds
        # drop an immediately overwritten plain store (same offset)
        for i in range(len(upds) - 1, -1, -1):
            u = upds[i]
            if u.vars or u.kind == 'havoc': break
            if u.off == p.off and u.width == w:
                if u.kind == 'pt': 
                    upds = upds[:i] + upds[i + 1:]
                break
            c = (u.off - p.off).cval()
            if c is None: break
        if sort == 'R' and isinstance(v, Poly) and any(ATOMS[a].kind == 'ITE' for a in v.atoms()):
            # increment of a cell whose present value depends on undecided aliasing: record the increment
            try: cur = self.read_obj(st, o, p.off, w, sort)
            except Unsupported: cur = None
            if isinstance(cur, Poly) and any(ATOMS[a].kind == 'ITE' for a in cur.atoms()) and all(v.d.get(m) == c for m, c in cur.d.items()):
                st.mem[p.obj] = Obj(o.name, o.base, o.upds + (Upd('acc', p.off, v - cur, w, sort),), o.size, o.meta)
                return
        st.mem[p.obj] = Obj(o.name, o.base, upds + (Upd('pt', p.off, v, w, sort),), o.size, o.meta)
    def new_obj(self, st, base, size=None, hint='o', **meta):
        _layer[0] += 1
        n = '%s#%d' % (hint, _layer[0])
        st.mem[n] = Obj(n, base, (), size, meta)
        return n
    # ------------------------------------------------------------ execution
    def call(self, st, fname, args):
        """execute function fname: list of (state, return value)"""
        f = self.M.funcs[fname]
        if not f.defined: raise Unsupported('no body for %s' % self.M.dem.get(fname, fname))
        materialise(f); loops(f)
        self.functions.add(self.M.dem.get(fname, fname))
        env = {}
        anon = 0
        for (t, n), a in zip(f.params, args):
            if n is None: n = '%%%d' % anon; anon += 1
            elif re.fullmatch(r'%\d+', n): anon += 1
            env[n] = a
        self.depth += 1
        if self.depth > 60: raise Unsupported('call depth')
        try:
            outs = self.run(st, env, f, f.order[0], None, None)
        finally: self.depth -= 1
        return [(o.st, o.data) for o in outs if o.kind == 'ret']
    def run(self, st, env, f, block, prev, region, skip_loop=None):
        """run from block. region: set of block names; leaving it (or returning to skip_loop header) ends the path.
        returns list of Outcome: ('ret', value) or ('edge', (from, to))"""
        L = loops(f)
        work = [(st, env, block, prev, True)]
        outs = []
        count = {}
        while work:
            if len(work) + len(outs) > self.max_states: raise Budget('too many paths in %s' % self.M.dem.get(f.name))
            st, env, b, prev, first = work.pop()
            if region is not None and not first:
                if b not in region or b == skip_loop:
                    outs.append(Outcome(st, env, 'edge', (prev, b))); continue
            blk = f.blocks[b]
            if b in L and not (b == skip_loop and first):
                # entering a loop (from outside: handle as a whole)
                if prev is None or prev not in L[b].body:
                    for (s2, e2, pb, nb) in self.do_loop(st, env, f, L[b], prev):
                        if nb is None: outs.append(Outcome(s2, e2, 'ret', pb)); continue
                        work.append((s2, e2, nb, pb, False))
                    continue
            if not (b == skip_loop and first):
                env = self.phis(st, env, blk, prev)
            for (s2, e2) in self.block_body(st, env, f, blk):
                self.terminator(s2, e2, f, blk, work, outs)
        return outs
    def phis(self, st, env, blk, prev):
        if not blk.phis: return dict(env)
        new = dict(env)
        for ph in blk.phis:
            for v, pb in ph.a:
                if pb == prev:
                    new[ph.res] = self.coerce(self.const(v, ph.ty, st, env), ph.ty); break
            else: raise Unsupported('phi without predecessor %s in %s' % (prev, blk.name))
        return new
    def decide(self, st, c):
        """list of (state, bool)"""
        if c is TRUE: return [(st, True)]
        if c is FALSE: return [(st, False)]
        if c is UNDEF: raise Unsupported('branch on undefined value')
        if self.pr.prove(st.pc, c): return [(st, True)]
        if self.pr.prove(st.pc, Not(c)): return [(st, False)]
        return [(st.fork(c), True), (st.fork(Not(c)), False)]
    def terminator(self, st, env, f, blk, work, outs):
        t = blk.term
        if t.op == 'br': work.append((st, env, t.a[0], blk.name, False))
        elif t.op == 'condbr':
            c = self.const(t.a[0], ('int', 1), st, env)
            if isinstance(c, Poly): c = i2b(c)
            for s2, r in self.decide(st, c):
                work.append((s2, env, t.a[1] if r else t.a[2], blk.name, False))
        elif t.op == 'switch':
            v = self.const(t.a[0], t.ty, st, env)
            if isinstance(v, Cond): v = b2i(v)
            cv = v.cval()
            if cv is not None:
                for k, d in t.a[2]:
                    if int(cv) == (k if k >= 0 else k + (1 << t.ty[1])) or int(cv) == k:
                        work.append((st, env, d, blk.name, False)); return
                work.append((st, env, t.a[1], blk.name, False)); return
            rest = st
            for k, d in t.a[2]:
                c = eq(v, k)
                dd = self.decide(rest, c)
                nxt = None
                for s2, r in dd:
                    if r: work.append((s2, env, d, blk.name, False))
                    else: nxt = s2
                rest = nxt
                if rest is None: return
            work.append((rest, env, t.a[1], blk.name, False))
        elif t.op == 'ret':
            v = self.coerce(self.const(t.a[0], t.ty, st, env), t.ty) if t.a else None
            outs.append(Outcome(st, env, 'ret', v))
        elif t.op == 'unreachable':
            if self.pr.feasible(st.pc): 
                h = getattr(self, 'on_unreachable', None)
                if h: h(st, f)
            return
        elif t.op == 'invoke':
            raise Unsupported('invoke')
        else: raise Unsupported(t.op)
    def block_body(self, st, env, f, blk):
        """list of (state, env) at the end of the block"""
        cur = [(st, env, 0)]
        done = []
        n = len(blk.ins)
        while cur:
            st, env, i = cur.pop()
            while i < n:
                self.steps += 1
                if self.steps > self.max_steps: raise Budget('step budget')
                ins = blk.ins[i]
                try:
                    r = self.step(st, env, ins, f)
                except NeedSplit as e:
                    a = st.fork(e.c); b = st.fork(Not(e.c))
                    ok = []
                    for s2 in (a, b):
                        if self.pr.feasible(s2.pc): ok.append(s2)
                    if len(ok) == 2:
                        cur.append((ok[1], dict(env), i))
                    if not ok: st = None; break
                    st = ok[0]
                    continue
                i += 1
                if r is not None:
                    if not r: st = None; break
                    for (s2, v) in r[1:]:
                        e2 = dict(env)
                        if ins.res: e2[ins.res] = v
                        cur.append((s2, e2, i))
                    st, v = r[0]
                    if len(r) > 1: env = dict(env)
                    if ins.res: env[ins.res] = v
            if st is not None: done.append((st, env))
        return done
    def wrapu(self, st, v, w):
        """value of an unsigned reading of integer v (lazy wrap of negatives)"""
        c = v.cval()
        if c is not None:
            return P(int(c) % (1 << w))
        if self.pr.prove(st.pc, ge(v, 0)): return v
        if self.pr.prove(st.pc, lt(v, 0)): return v + (1 << w)
        raise NeedSplit(ge(v, 0))
    def num(self, v):
        if isinstance(v, Cond): return b2i(v)
        if isinstance(v, Ptr) and v.obj is None: return v.off
        if not isinstance(v, Poly):
            raise Unsupported('numeric operation on %r' % (v,))
        return v
    def step(self, st, env, ins, f):
        """execute one instruction; returns None or a list of (state, value) continuations (calls)"""
        op = ins.op; C = self.const; a = ins.a
        if op in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul', 'fdiv'):
            x = C(a[0], ins.ty, st, env); y = C(a[1], ins.ty, st, env)
            if x is UNDEF or y is UNDEF: env[ins.res] = UNDEF; return
            if ins.ty == ('int', 1): raise Unsupported('i1 arithmetic')
            if op == 'sub' and isinstance(x, PtrInt) and isinstance(y, PtrInt):
                if x.p.obj != y.p.obj: raise Unsupported('pointer difference')
                env[ins.res] = x.p.off - y.p.off; return
            if op in ('add', 'sub') and isinstance(x, PtrInt) and isinstance(y, Poly):
                env[ins.res] = PtrInt(Ptr(x.p.obj, x.p.off + (y if op == 'add' else -y))); return
            x = self.num(x); y = self.num(y)
            if op in ('add', 'fadd'): r = x + y
            elif op in ('sub', 'fsub'): r = x - y
            elif op in ('mul', 'fmul'): r = x * y
            else:
                if not y.d: 
                    env[ins.res] = app('div0', [x], 'R'); return
                r = x / y
            if op in ('add', 'sub', 'mul'):
                c = r.cval()
                if c is not None and abs(c) >= (1 << (ins.ty[1] - 1)):
                    c = int(c) % (1 << ins.ty[1])
                    r = P(c)
            env[ins.res] = r
        elif op == 'fneg': env[ins.res] = -self.num(C(a[0], ins.ty, st, env))
        elif op == 'icmp': env[ins.res] = self.icmp(st, a[0], C(a[1], ins.ty, st, env), C(a[2], ins.ty, st, env), ins.ty)
        elif op == 'fcmp':
            x = self.num(C(a[1], ins.ty, st, env)); y = self.num(C(a[2], ins.ty, st, env)); p = a[0]
            d = x - y
            if p in ('oeq', 'ueq'): r = eq0(d, 'R')
            elif p in ('one', 'une'): r = Not(eq0(d, 'R'))
            elif p in ('olt', 'ult'): r = lt0(d, 'R')
            elif p in ('ole', 'ule'): r = le0(d, 'R')
            elif p in ('ogt', 'ugt'): r = lt0(-d, 'R')
            elif p in ('oge', 'uge'): r = le0(-d, 'R')
            elif p == 'ord' or p == 'true': r = TRUE
            elif p == 'uno' or p == 'false': r = FALSE
            else: raise Unsupported('fcmp ' + p)
            if p == 'uno' or p == 'ord': self.unchecked.add('NaN excluded')
            env[ins.res] = r
        elif op == 'getelementptr':
            env[ins.res] = self.gep(ins.ty, C(a[0][1], a[0][0], st, env), [(t, self.num(C(v, t, st, env))) for t, v in a[1:]])
        elif op == 'load':
            p = C(a[0], ('ptr',), st, env)
            env[ins.res] = self.load(st, p, ins.ty)
        elif op == 'store':
            v = C(a[0], ins.ty, st, env); p = C(a[1], ('ptr',), st, env)
            self.store(st, p, v, ins.ty)
        elif op == 'alloca':
            env[ins.res] = Ptr(self.new_obj(st, 'uninit', hint='stk'), 0)
        elif op in ('zext', 'sext', 'trunc', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'freeze'):
            if op == 'freeze': env[ins.res] = C(a[0], ins.ty, st, env); return
            fty, v = a; x = C(v, fty, st, env)
            env[ins.res] = self.cast(st, op, x, fty, ins.ty)
        elif op == 'select':
            c = C(a[0], ('int', 1), st, env); x = C(a[1], ins.ty, st, env); y = C(a[2], ins.ty, st, env)
            if c is not TRUE and c is not FALSE:
                c = self.simp(st.pc, c)
            env[ins.res] = self._ite(c, x, y)
        elif op in ('and', 'or', 'xor'):
            x = C(a[0], ins.ty, st, env); y = C(a[1], ins.ty, st, env)
            env[ins.res] = self.bitop(st, op, x, y, ins.ty[1])
        elif op in ('shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            x = C(a[0], ins.ty, st, env); y = C(a[1], ins.ty, st, env)
            env[ins.res] = self.divop(st, op, x, y, ins.ty[1])
        elif op == 'extractvalue':
            v = C(a[0], ins.ty, st, env)
            for i in a[1]: v = v[i] if v is not UNDEF else UNDEF
            env[ins.res] = v
        elif op == 'insertvalue':
            v = C(a[0], ins.ty, st, env); x = C(a[1], a[3], st, env)
            env[ins.res] = self._insert(v, x, a[2], ins.ty)
        elif op == 'call':
            return self.do_call(st, env, ins)
        else: raise Unsupported('instruction %s' % ins)
    def _insert(self, v, x, idx, ty):
        r = self.M.types[ty[1]] if ty[0] == 'named' else ty
        n = len(r[1]) if r[0] == 'struct' else r[1]
        if v is UNDEF: v = [UNDEF] * n
        v = list(v)
        if len(idx) == 1: v[idx[0]] = x
        else: v[idx[0]] = self._insert(v[idx[0]], x, idx[1:], r[1][idx[0]] if r[0] == 'struct' else r[2])
        return v
    def icmp(self, st, p, x, y, ty):
        if x is UNDEF or y is UNDEF: raise Unsupported('compare undefined')
        if isinstance(x, FuncPtr) or isinstance(y, FuncPtr):
            same = x == y
            return TRUE if same == (p == 'eq') else FALSE
        if isinstance(x, PtrInt): x = x.p
        if isinstance(y, PtrInt): y = y.p
        if isinstance(x, Poly) and isinstance(y, Ptr): x = self.coerce(x, ('ptr',))
        if isinstance(y, Poly) and isinstance(x, Ptr): y = self.coerce(y, ('ptr',))
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if x.obj != y.obj:
                if p == 'eq': return FALSE
                if p == 'ne': return TRUE
                raise Unsupported('pointer order')
            x, y = x.off, y.off
            d = x - y
            return {'eq': eq0(d, 'I'), 'ne': Not(eq0(d, 'I')), 'ult': lt0(d, 'I'), 'ule': le0(d, 'I'), 'ugt': lt0(-d, 'I'), 'uge': le0(-d, 'I')}[p]
        if isinstance(x, Cond) and isinstance(y, Cond):
            if p == 'eq': return And(Or(Not(x), y), Or(x, Not(y))) if (x.k not in ('true', 'false') and y.k not in ('true', 'false')) else (x if y is TRUE else Not(x) if y is FALSE else y if x is TRUE else Not(y))
            if p == 'ne': return Not(self.icmp(st, 'eq', x, y, ty))
            raise Unsupported('bool order')
        x = self.num(x); y = self.num(y); w = ty[1]
        if p in ('eq', 'ne'):
            cy = y.cval(); cx = x.cval()
            if cy is not None and cy < 0: x = self.wrapu(st, x, w); y = self.wrapu(st, y, w)
            elif cx is not None and cx < 0: x = self.wrapu(st, x, w); y = self.wrapu(st, y, w)
            elif cy is not None and cy >= (1 << (w - 1)): x = self.wrapu(st, x, w)
            r = eq0(x - y, 'I')
            return r if p == 'eq' else Not(r)
        if p[0] == 'u':
            x = self.wrapu(st, x, w); y = self.wrapu(st, y, w)
        else:
            def sg(v):
                c = v.cval()
                if c is not None and c >= (1 << (w - 1)): return v - (1 << w)
                return v
            x = sg(x); y = sg(y)
        d = x - y
        q = p[1:]
        return {'lt': lt0(d, 'I'), 'le': le0(d, 'I'), 'gt': lt0(-d, 'I'), 'ge': le0(-d, 'I')}[q]
    def cast(self, st, op, x, fty, tty):
        if x is UNDEF: return UNDEF
        if op == 'zext':
            if isinstance(x, Cond): return b2i(x)
            return self.wrapu(st, x, fty[1])
        if op == 'sext':
            if isinstance(x, Cond): return -b2i(x)
            c = x.cval()
            if c is not None and c >= (1 << (fty[1] - 1)): return x - (1 << fty[1])
            return x
        if op == 'trunc':
            if tty[1] == 1:
                if isinstance(x, Cond): return x
                return i2b(self.mod2(st, x))
            c = self.num(x).cval() if not isinstance(x, PtrInt) else None
            if c is not None: return P(int(c) % (1 << tty[1]))
            self.unchecked.add('integer truncation to %d bits is value preserving' % tty[1])
            return self.num(x)
        if op in ('uitofp', 'sitofp'):
            x = self.num(x)
            if op == 'uitofp': x = self.wrapu(st, x, fty[1])
            return x
        if op in ('fpext', 'fptrunc', 'bitcast'): return x
        if op == 'ptrtoint':
            if isinstance(x, Ptr):
                if x.obj is None: return x.off
                return PtrInt(x)
            raise Unsupported('ptrtoint')
        if op == 'inttoptr':
            if isinstance(x, PtrInt): return x.p
            if isinstance(x, Poly) and x.cval() == 0: return NULL
            raise Unsupported('inttoptr')
        if op in ('fptosi', 'fptoui'):
            x = self.num(x)
            c = x.cval()
            if c is not None: return P(int(c))
            if x.is_int(): return x
            return app('fptoint', [x], 'I')
        raise Unsupported(op)
    def mod2(self, st, x):
        c = x.cval()
        if c is not None: return P(int(c) & 1)
        if len(x.d) == 1:
            (m, c), = x.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'ITE':
                a = ATOMS[m[0][0]].args; return ite(a[0], self.mod2(st, P(a[1])), self.mod2(st, P(a[2])))
        # known 0/1 valued
        if self.pr.prove(st.pc, And(ge(x, 0), le(x, 1))): return x
        return app('mod', [x, P(2)], 'I')
    def bitop(self, st, op, x, y, w):
        if w == 1 or isinstance(x, Cond) and isinstance(y, Cond):
            if isinstance(x, Poly): x = i2b(x)
            if isinstance(y, Poly): y = i2b(y)
            if op == 'and': return And(x, y)
            if op == 'or': return Or(x, y)
            if y is TRUE: return Not(x)
            if x is TRUE: return Not(y)
            return Or(And(x, Not(y)), And(Not(x), y))
        if op in ('and', 'or', 'xor'):
            bx, by = asbool(x), asbool(y)
            if bx is not None and by is not None:
                return b2i(self.bitop(st, op, bx, by, 1))
        x = self.num(x); y = self.num(y)
        cx, cy = x.cval(), y.cval()
        if cx is not None and cy is not None:
            m = (1 << w) - 1; i, j = int(cx) & m, int(cy) & m
            return P({'and': i & j, 'or': i | j, 'xor': i ^ j}[op])
        if op == 'and' and cy == 1: return self.mod2(st, x)
        if op == 'xor' and cy == -1: return -x - 1
        if op == 'and' and (cy == 0 or cx == 0): return ZERO
        if op in ('or', 'xor') and cy == 0: return x
        if op == 'and' and cy is not None and int(cy) > 0 and (int(cy) & (int(cy) + 1)) == 0:
            return self.divop(st, 'urem', x, P(int(cy) + 1), w)
        bo = getattr(self, 'bit_hook', None)
        if bo: return bo(self, st, op, x, y, w)
        return app(op, [x, y], 'I')
    def divop(self, st, op, x, y, w):
        x = self.num(x); y = self.num(y)
        cx, cy = x.cval(), y.cval()
        if cx is not None and cy is not None:
            i, j = int(cx), int(cy)
            m = (1 << w) - 1
            if op == 'shl': return P((i << j) & m)
            if op == 'lshr': return P((i & m) >> j)
            if op == 'ashr':
                i &= m
                if i >> (w - 1): i -= 1 << w
                return P(i >> j)
            if j == 0: raise ObligationFailed('division by zero')
            if op == 'udiv': return P((i & m) // (j & m))
            if op == 'urem': return P((i & m) % (j & m))
            q = abs(i) // abs(j); q = q if (i < 0) == (j < 0) else -q
            return P(q) if op == 'sdiv' else P(i - q * j)
        if op == 'shl' and cy is not None: return x * (1 << int(cy))
        if op in ('lshr', 'ashr') and cy is not None:
            y = P(1 << int(cy)); op = 'udiv' if op == 'lshr' else 'sdiv'; cy = y.cval()
        if op in ('udiv', 'sdiv', 'urem', 'srem') and cy is not None and cy > 0:
            if op[0] == 'u': x = self.wrapu(st, x, w)
            q = exact_div(x, y)
            if q is not None and a_int_coef(q): return q if 'div' in op else ZERO
            if op[0] == 's' and not self.pr.prove(st.pc, ge(x, 0)):
                q = app('sdiv', [x, y], 'I')
                ax = Or(And(ge(x, 0), le(y * q, x), le(x - y * q, y - 1)), And(lt(x, 0), ge(y * q, x), le(y * q - x, y - 1)))
                if ax not in self.pr.axioms: self.pr.axioms.append(ax)
                return q if op == 'sdiv' else x - y * q
            hi = Poly({m: c for m, c in x.d.items() if (c / cy).denominator == 1}); lo = x - hi
            if hi.d and lo.d:
                for k in (0, 1, -1, 2):
                    if k and not (() in lo.d and abs(lo.d[()]) >= 1): break
                    l2 = lo + y * k
                    if self.pr.prove(st.pc, And(ge(l2, 0), lt(l2, y))):
                        q = hi / y - k
                        return q if 'div' in op else l2
            if not hi.d and self.pr.prove(st.pc, And(ge(x, 0), lt(x, y))): return ZERO if 'div' in op else x
            t = app('div', [x, y], 'I')
            st.pc = st.pc + (le(t * y, x), gt(t * y + y, x), ge(t, 0))
            return t if 'div' in op else x - t * y
        if op in ('udiv', 'urem') and not self.pr.prove(st.pc, gt(y, 0)): 
            raise ObligationFailed('division by zero', str(y))
        bo = getattr(self, 'bit_hook', None)
        if bo:
            r = bo(self, st, op, x, y, w)
            if r is not None: return r
        return app(op, [x, y], 'I')
    # ------------------------------------------------------------ calls
    def do_call(self, st, env, ins):
        fv, args = ins.a
        if fv[0] == 'asm': return None
        f = self.const(fv, ('ptr',), st, env)
        if not isinstance(f, FuncPtr): raise Unsupported('indirect call')
        name = f.name
        if name.startswith('@llvm.'):
            return self.intrinsic(st, env, ins, name, [self.const(v, t, st, env) if t[0] != 'metadata' else None for t, v in args])
        av = [self.const(v, t, st, env) for t, v in args]
        av = [self.coerce(v, t) for v, (t, _) in zip(av, args)]
        h = self.find_contract(name)
        if h is not None:
            r = h(self, st, av, ins, self.M.dem.get(name, name))
            if r is not NotImplemented:
                if isinstance(r, list): return r
                return [(st, r)]
        r = self.builtin(st, name, av, ins)
        if r is not NotImplemented: return r
        fn = self.M.funcs.get(name)
        if fn is None or not fn.defined: raise Unsupported('call to %s' % self.M.dem.get(name, name))
        return self.call(st, name, av)
    MATH = {'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'expm1', 'log1p', 'erf', 'erfc', 'pow', 'fabs', 'floor', 'ceil', 'log10', 'atan2', 'fmod'}
    def builtin(self, st, name, a, ins):
        n = name[1:]
        if n in self.MATH:
            if n == 'fabs': return [(st, self.fabs(a[0]))]
            return [(st, app(n, [self.num(x) for x in a], 'R'))]
        if n in ('_Znwm', '_Znam', 'malloc'):
            return [(st, Ptr(self.new_obj(st, 'uninit', a[0], 'new'), 0))]
        if n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'): return [(st, None)]
        if n in ('__cxa_guard_acquire',): return [(st, ZERO)]
        if n in ('memcpy', 'memmove'): self.memcpy(st, *a[:3]); return [(st, a[0])]
        return NotImplemented
    def fabs(self, x): return ite(lt0(self.num(x), 'R'), -self.num(x), self.num(x))
    def intrinsic(self, st, env, ins, name, a):
        n = name[6:]
        if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'invariant')):
            return None
        if n.startswith(('memcpy', 'memmove')): self.memcpy(st, a[0], a[1], a[2]); return None
        if n.startswith('memset'): self.memset(st, a[0], a[1], a[2]); return None
        r = NotImplemented
        b = n.split('.')[0]
        if b in self.MATH: r = app(b, [self.num(x) for x in a], 'R') if b != 'fabs' else self.fabs(a[0])
        elif b == 'fmuladd' or b == 'fma': r = self.num(a[0]) * self.num(a[1]) + self.num(a[2])
        elif b in ('umax', 'smax', 'maxnum'): x, y = self.num(a[0]), self.num(a[1]); r = self._minmax(st, x, y, True)
        elif b in ('umin', 'smin', 'minnum'): x, y = self.num(a[0]), self.num(a[1]); r = self._minmax(st, x, y, False)
        elif b == 'abs': x = self.num(a[0]); r = ite(lt(x, 0), -x, x)
        elif b == 'expect': r = a[0]
        elif n.startswith('usub.sat'):
            x, y = self.num(a[0]), self.num(a[1]); r = ite(self.simp(st.pc, ge(x, y)), x - y, 0)
        elif n.startswith('umul.with.overflow') or n.startswith('uadd.with.overflow'):
            self.unchecked.add('size computations do not overflow')
            r = [self.num(a[0]) * self.num(a[1]) if n.startswith('umul') else self.num(a[0]) + self.num(a[1]), FALSE]
        elif n.startswith('trap'): raise ObligationFailed('trap reached')
        elif n.startswith('objectsize') or n.startswith('is.constant'): r = ZERO
        if r is NotImplemented: raise Unsupported('intrinsic ' + name)
        env[ins.res] = r
        return None
    def _minmax(self, st, x, y, mx):
        c = self.simp(st.pc, ge(x, y))
        return ite(c, x, y) if mx else ite(c, y, x)
    def memcpy(self, st, d, s, n):
        n = self.num(n)
        if n.cval() == 0: return
        if d.obj is None or s.obj is None:
            if self.pr.prove(st.pc, eq(n, 0)): return
            raise NeedSplit(eq(n, 0)) if not self.pr.prove(st.pc, gt(n, 0)) else ObligationFailed('memcpy null')
        so = self.getobj(st, s.obj); do = self.getobj(st, d.obj)
        c = n.cval()
        esz = do.meta.get('esize') or so.meta.get('esize')
        if c is not None and not esz:
            # field wise copy of a small struct: replay point updates of the source
            outs = []
            for u in so.upds:
                rel = (u.off - s.off).cval()
                if u.vars or rel is None: raise Unsupported('memcpy source')
                if 0 <= rel and rel + u.width <= c: outs.append((P(rel), u))
                elif rel + u.width <= 0 or rel >= c: pass
                else: raise Unsupported('memcpy partial')
            for rel, u in outs: self.write(st, Ptr(d.obj, d.off + rel), u.val, u.width, u.sort)
            return
        if not esz: raise Unsupported('memcpy of unknown element size')
        cnt = exact_div(n, P(esz))
        if cnt is None: raise Unsupported('memcpy size')
        sort = do.meta.get('sort') or so.meta.get('sort')
        t = fresh('m', 'I')
        s2 = st.fork(ge(P(t), 0), lt(P(t), cnt))
        v = self.read_obj(s2, so, s.off + P(t) * esz, esz, sort)
        st.mem[d.obj] = do.with_upd(Upd('pt', d.off + P(t) * esz, v, esz, sort, ((t, cnt),)))
    def memset(self, st, d, v, n):
        n = self.num(n); v = self.num(v)
        if n.cval() == 0: return
        if v.cval() != 0: raise Unsupported('memset non zero')
        if d.obj is None:
            if self.pr.prove(st.pc, eq(n, 0)): return
            raise Unsupported('memset null')
        do = self.getobj(st, d.obj)
        esz = do.meta.get('esize')
        if not do.upds and d.off.cval() == 0 and (do.size is not None and do.size == n or do.base == 'uninit'):
            st.mem[d.obj] = Obj(do.name, 'zero', (), do.size, do.meta); return
        if not esz: raise Unsupported('memset of unknown element size')
        cnt = exact_div(n, P(esz))
        if cnt is None: raise Unsupported('memset size')
        t = fresh('m', 'I')
        st.mem[d.obj] = do.with_upd(Upd('pt', d.off + P(t) * esz, ZERO, esz, do.meta.get('sort'), ((t, cnt),)))
    # ------------------------------------------------------------ loops
    def do_loop(self, st, env, f, L, prev):
        """returns list of (state, env, from_block, to_block)"""
        if self.loop_hook is not None:
            r = self.loop_hook(self, st, env, f, L, prev)
            if r is not None: return r
        return self.loop_default(st, env, f, L, prev)
    def loop_default(self, st, env, f, L, prev):
        import os
        self.loop_depth += 1; frozen0 = self.frozen; self.frozen = None; memind0 = self.memind; self.memind = {}
        try:
            # complete unrolling when every iteration's exit decision is determined
            r = self.try_unroll(st, env, f, L, prev, decided_only=True)
            if r is not None: return r
            err = None
            for peel in range(3):
                try:
                    if peel == 0: return self.summarise(st, env, f, L, prev)
                    return self.peeled(st, env, f, L, prev, peel)
                except LoopFail as e:
                    err = e
                    if peel == 0:
                        try:
                            for _ in range(6):
                                if getattr(e, 'frozen', None) is not None: self.frozen = e.frozen
                                elif getattr(e, 'memind', None): self.memind = {**self.memind, **e.memind}
                                else: break
                                try: return self.summarise(st, env, f, L, prev)
                                except LoopFail as e2: err = e = e2
                        finally: self.frozen = None; self.memind = {}
                    if os.environ.get('DBG'): print('  loop summary failed (peel %d) in %s %s: %s' % (peel, self.M.dem.get(f.name), L.header, e))
            if not self.pr.feasible(st.pc): return []
            raise Unsupported('loop in %s at %s: %s' % (self.M.dem.get(f.name), L.header, err))
        finally: self.loop_depth -= 1; self.frozen = frozen0; self.memind = memind0
    def iterate(self, st, env, f, L, prev):
        """one pass from the header: phis evaluated. -> outcomes"""
        st = st.fork()
        env = self.phis(st, env, f.blocks[L.header], prev)
        return self.run(st, env, f, L.header, prev, L.body, skip_loop=L.header)
    def try_unroll(self, st, env, f, L, prev, decided_only, limit=None):
        limit = limit or self.max_unroll
        outs = []
        cur = [(st, env, prev)]
        for it in range(limit + 1):
            nxt = []
            for (s, e, p) in cur:
                try: rs = self.iterate(s, e, f, L, p)
                except Unsupported:
                    if decided_only: return None
                    raise
                if decided_only and len(rs) != 1: return None
                for o in rs:
                    if o.kind == 'ret': outs.append((o.st, o.env, o.data, None)); continue
                    frm, to = o.data
                    if to == L.header: nxt.append((o.st, o.env, frm))
                    else: outs.append((o.st, o.env, frm, to))
            if not nxt: return outs
            if decided_only and it == 0:
                # quick check: a loop with constant bounds; stop early otherwise
                pass
            cur = nxt
        if decided_only: return None
        raise Budget('unroll')
    def peeled(self, st, env, f, L, prev, n):
        outs = []
        cur = [(st, env, prev)]
        for it in range(n):
            nxt = []
            for (s, e, p) in cur:
                for o in self.iterate(s, e, f, L, p):
                    if o.kind == 'ret': outs.append((o.st, o.env, o.data, None)); continue
                    frm, to = o.data
                    if to == L.header: nxt.append((o.st, o.env, frm))
                    else: outs.append((o.st, o.env, frm, to))
            cur = nxt
        for (s, e, p) in cur: outs += self.summarise(s, e, f, L, p)
        return outs

    # ---- loop summarisation
    def loop_entry(self, st, env, f, L, prev):
        H = f.blocks[L.header]
        init = {}
        for ph in H.phis:
            for v, pb in ph.a:
                if pb == prev: init[ph.res] = self.coerce(self.const(v, ph.ty, st, env), ph.ty)
        return H, init
    def layer(self, st):
        """fresh opaque layer over every object"""
        _layer[0] += 1
        tag = 'L%d:' % _layer[0]
        s2 = State(st.pc, {}, st.trace, dict(st.ghost))
        for n, o in st.mem.items():
            if o.meta.get('const') or (self.frozen is not None and n in self.frozen): s2.mem[n] = o; continue
            b = tag + str(n)
            self.layers[b] = o
            s2.mem[n] = Obj(n, b, (), o.size, o.meta)
        return s2, tag
    def ssa_forms(self, st, env, f, L, prev):
        """closed forms by looking at the SSA definition of the back edge values only; None if some phi is not simple"""
        H, init = self.loop_entry(st, env, f, L, prev)
        defs = {}
        for b in L.body:
            for i in f.blocks[b].ins:
                if i.res: defs[i.res] = i
        phis = {ph.res for ph in H.phis}
        loopphis = set()
        for b in L.body:
            for ph in f.blocks[b].phis: loopphis.add(ph.res)
        def ev(v, ty, dep=0):
            # -> (phi or None, Poly offset)
            if v[0] == 'loc':
                n = v[1]
                if n in phis: return n, ZERO
                if n in loopphis or dep > 6: return None
                if n in defs:
                    i = defs[n]
                    if i.op in ('add', 'sub'):
                        a = ev(i.a[0], i.ty, dep + 1); b = ev(i.a[1], i.ty, dep + 1)
                        if a is None or b is None: return None
                        if i.op == 'add':
                            if a[0] and b[0]: return None
                            return a[0] or b[0], a[1] + b[1]
                        if b[0]: return None
                        return a[0], a[1] - b[1]
                    if i.op == 'getelementptr' and len(i.a) == 2:
                        a = ev(i.a[0][1], i.a[0][0], dep + 1); b = ev(i.a[1][1], i.a[1][0], dep + 1)
                        if a is None or b is None or b[0]: return None
                        return a[0], a[1] + b[1] * sizeof(self.M, i.ty)
                    if i.op in ('freeze',): return ev(i.a[0], i.ty, dep + 1)
                    return None
            x = self.const(v, ty, st, env)
            if isinstance(x, Poly): return None, x
            return None
        t = fresh('t', 'I'); form = {}; rest = []
        for ph in H.phis:
            if ph.ty[0] == 'fp' or (ph.ty[0] == 'int' and ph.ty[1] in (1,)) or (ph.ty[0] == 'int' and ph.ty[1] == 8 and asbool(init[ph.res]) is not None):
                rest.append(ph); continue
            steps = set()
            for v, pb in ph.a:
                if pb in L.body:
                    r = ev(v, ph.ty)
                    if r is None or r[0] != ph.res: return None
                    steps.add(r[1])
            if len(steps) != 1: return None
            d = steps.pop(); v0 = init[ph.res]
            if isinstance(v0, Ptr): form[ph.res] = Ptr(v0.obj, v0.off + d * P(t))
            elif isinstance(v0, Poly): form[ph.res] = v0 + d * P(t)
            else: return None
        return t, form, rest, init, {}
    def closed_forms(self, st, env, f, L, prev):
        r = self.ssa_forms(st, env, f, L, prev)
        if r is not None: return r
        return self.probe_forms(st, env, f, L, prev)
    def probe_forms(self, st, env, f, L, prev):
        """affine closed forms of the header phis. -> (t, dict phi -> value at iteration t, accumulators)"""
        H, init = self.loop_entry(st, env, f, L, prev)
        s1, tag = self.layer(st)
        e1 = dict(env); syms = {}
        for ph in H.phis:
            k = ph.ty[0]
            v0 = init[ph.res]
            if k == 'ptr':
                if not isinstance(v0, Ptr): raise LoopFail('pointer phi')
                a = fresh('ph', 'I'); syms[ph.res] = a; e1[ph.res] = Ptr(v0.obj, P(a))
            elif k == 'fp': a = fresh('ph', 'R'); syms[ph.res] = a; e1[ph.res] = P(a)
            elif k == 'int' and ph.ty[1] == 1: a = fresh_bool('ph'); syms[ph.res] = a.a[0]; e1[ph.res] = a
            elif k == 'int' and ph.ty[1] == 8 and asbool(v0) is not None: a = fresh_bool('ph'); syms[ph.res] = a.a[0]; e1[ph.res] = b2i(a)
            elif k == 'int': a = fresh('ph', 'I'); syms[ph.res] = a; e1[ph.res] = P(a); s1 = s1.fork(ge(P(a), 0)) if False else s1
            else: raise LoopFail('phi type')
        self._probe = True
        save = self.steps
        try: outs = self.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header)
        except NeedSplit as e: raise LoopFail('split')
        except ObligationFailed as e: raise LoopFail('probe: %s' % e)
        backs = [o for o in outs if o.kind == 'edge' and o.data[1] == L.header]
        if not backs: raise LoopFail('no back edge')
        t = fresh('t', 'I')
        allsym = {a.id for a in syms.values()}
        form = {}; accs = []
        for ph in H.phis:
            vals = []
            for o in backs:
                for v, pb in ph.a:
                    if pb == o.data[0]: vals.append(self.coerce(self.const(v, ph.ty, o.st, o.env), ph.ty))
            me = syms[ph.res]
            v0 = init[ph.res]
            if me.sort == 'B' and ph.ty[1] == 8:
                if any(asbool(v) is None for v in vals): raise LoopFail('i8 phi')
                accs.append(ph)
            elif ph.ty[0] == 'ptr' or (ph.ty[0] == 'int' and ph.ty[1] != 1):
                steps = set()
                for v in vals:
                    if isinstance(v, Ptr):
                        if v.obj != v0.obj: raise LoopFail('pointer phi changes object')
                        v = v.off
                    elif not isinstance(v, Poly): raise LoopFail('phi value %r' % (v,))
                    d = v - P(me)
                    if d.vars() & allsym or self.has_layer(d, tag): raise LoopFail('non affine induction variable')
                    steps.add(d)
                if len(steps) != 1: raise LoopFail('path dependent induction variable')
                d = steps.pop()
                form[ph.res] = Ptr(v0.obj, v0.off + d * P(t)) if isinstance(v0, Ptr) else v0 + d * P(t)
            else: accs.append(ph)
        return t, form, accs, init, syms
    def has_layer(self, x, tag):
        found = [False]
        def go(p):
            if isinstance(p, Poly):
                for a in p.atoms(): ga(ATOMS[a])
            elif isinstance(p, Cond):
                if p.k == 'selb' and str(p.a[0]).startswith(tag): found[0] = True
                for y in p.a: go(y)
        def ga(a):
            if a.kind == 'SEL' and str(a.args[0]).startswith(tag): found[0] = True
            for y in a.args: go(y)
        go(x)
        return found[0]
    def summarise(self, st, env, f, L, prev, tbound=None):
        H = f.blocks[L.header]
        t, form, accs, init, syms = self.closed_forms(st, env, f, L, prev)
        # ---- generic iteration
        s1, tag = self.layer(st)
        mind = {}
        for (n, off, w), d in self.memind.items():
            v0 = self.read_obj(st, st.mem[n], off, w, 'I')
            if not isinstance(v0, Poly): raise LoopFail('memory induction variable')
            mind[(n, off, w)] = (v0, d)
            ob = s1.mem[n]; s1.mem[n] = Obj(ob.name, ob.base, ob.upds + (Upd('pt', off, v0 + d * P(t), w, 'I'),), ob.size, ob.meta)
        s1 = s1.fork(ge(P(t), 0))
        if tbound is None: tbound = self.header_bound(st, env, f, L, form, accs, t)
        if tbound is not None: s1 = s1.fork(le(P(t), tbound))
        e1 = dict(env)
        for ph in H.phis:
            if ph.res in form: e1[ph.res] = form[ph.res]
        accsym = {}
        for ph in accs:
            if ph.ty[0] == 'fp': a = fresh('acc', 'R'); accsym[ph.res] = a; e1[ph.res] = P(a)
            else: a = fresh_bool('bacc'); accsym[ph.res] = a; e1[ph.res] = a if ph.ty[1] == 1 else b2i(a)
        base_pc = s1.pc
        try: outs = self.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header)
        except NeedSplit: raise LoopFail('split')
        backs = [o for o in outs if o.kind == 'edge' and o.data[1] == L.header]
        exits = [o for o in outs if not (o.kind == 'edge' and o.data[1] == L.header)]
        if not backs: raise LoopFail('no back edge')
        # ---- trip count: condition to take the back edge
        def added(o): return [c for c in o.st.pc if c not in base_pc]
        cond = Or(*[And(*added(o)) for o in backs])
        common = None
        for o in backs:
            s = set(added(o))
            common = s if common is None else common & s
        tcs = [c for c in common if t.id in c.vars() and c.k in ('le0', 'not', 'eq0') and not self.has_layer(c, tag)]
        T = None; used = None
        for c in tcs:
            T = self.trip(st.pc, c, t)
            if T is not None: used = c; break
        if T is None:
            e = LoopFail('trip count (conditions %s)' % (tcs,))
            if self.frozen is None:
                wr = {n for o in outs for n, ob in o.st.mem.items() if n in st.mem and ob is not s1.mem.get(n)}
                e.frozen = frozenset(n for n in st.mem if n not in wr)
            raise e
        if self.frozen is not None and any(n in self.frozen and n in s1.mem and ob is not s1.mem.get(n) for o in outs for n, ob in o.st.mem.items()): raise LoopFail('write to an object that was taken as unchanged')
        # all exits must have exactly the negation of the used condition
        for o in exits:
            if Not(used) not in added(o): raise LoopFail('second exit')
        N, side = T
        if side is not None and not self.pr.prove(st.pc, side):
            if self.pr.prove(st.pc, Not(side)):
                N = ZERO
            else:
                outs2 = []
                for c in (side, Not(side)):
                    s2 = st.fork(c)
                    if self.pr.feasible(s2.pc): outs2 += self.summarise(s2, env, f, L, prev)
                return outs2
        N = P(N)
        # ---- memory effects of the back iterations, guarded per path
        multi = len(backs) > 1
        rngfact = (ge(P(t), 0), lt(P(t), N))
        pct = st.pc + rngfact
        effects = {}    # obj -> list of Upd (with t free)
        touched = set()
        for o in backs:
            g = And(*[c for c in added(o) if c is not used]) if multi else TRUE
            for n, ob in o.st.mem.items():
                if n not in st.mem: continue        # allocated inside the iteration
                if ob.upds and ob is not s1.mem.get(n): touched.add(n); effects.setdefault(n, [])
            for n in touched:
                ob = o.st.mem[n]
                if ob is s1.mem.get(n): continue
                for u in ob.upds:
                    if u.kind == 'havoc': raise LoopFail('havoc in loop')
                    mk_ = (n, u.off, u.width)
                    if mk_ in mind and not u.vars and u.kind == 'pt' and u.guard is TRUE:
                        v0, d = mind[mk_]
                        if u.val == v0 + d * (P(t) + 1): continue
                        if u.val == v0 + d * P(t):
                            raise LoopFail('memory induction variable is not incremented on every path')
                        raise LoopFail('memory induction variable is not affine')
                    effects.setdefault(n, []).append(Upd(u.kind, u.off, u.val, u.width, u.sort, u.vars, And(g, u.guard)))
        for n, o in st.mem.items():
            pass
        new = {}
        # classify plain stores: read-modify-write accumulations
        allreads_extra = []
        for n, us in effects.items():
            res = []
            for u in us:
                if u.kind == 'pt' and u.sort == 'R' and isinstance(u.val, Poly):
                    me = mk_atom('SEL', (tag + str(n), u.off, u.width), 'R')
                    cc = coeff(u.val, me)
                    if cc is not None and cc[0] == ONE:
                        if not cc[1].d: continue    # value unchanged
                        res.append(Upd('acc', u.off, cc[1], u.width, u.sort, u.vars, u.guard)); continue
                res.append(u)
            new[n] = res
        # merging acc and pt on the same object in one iteration is order dependent; require separation
        # ---- interference: reads of this layer against writes of earlier iterations
        for ph in accs:
            pass
        reads = []
        def collect(x, pc): self.collect_reads(x, tag, pc, reads)
        for n, us in new.items():
            for u in us:
                vpc = pct
                for v, nn in u.vars: vpc = vpc + (ge(P(v), 0), lt(P(v), nn))
                collect(u.off, vpc); collect(u.guard, vpc)
                if isinstance(u.val, (Poly, Cond)): collect(u.val, vpc)
                elif isinstance(u.val, Ptr): collect(u.val.off, vpc)
                for v, nn in u.vars: collect(nn, pct)
        for o in backs:
            for c in added(o): collect(c, pct)
        deltas = {}
        for ph in accs:
            a = accsym[ph.res]
            per = []
            for o in backs:
                for v, pb in ph.a:
                    if pb == o.data[0]: val = self.coerce(self.const(v, ph.ty, o.st, o.env), ph.ty)
                g = And(*[c for c in added(o) if c is not used]) if multi else TRUE
                if ph.ty[0] == 'int' and ph.ty[1] == 8: val = asbool(val)
                per.append((g, val))
            if ph.ty[0] == 'fp':
                d = ZERO
                for g, val in per:
                    cc = coeff(val, a)
                    if cc is None or cc[0] != ONE: raise LoopFail('real phi is not an accumulator')
                    d = d + (cc[1] if g is TRUE else ite(g, cc[1], 0))
                deltas[ph.res] = d; collect(d, pct)
            else:
                # boolean: new = old and c(t) / old or c(t)
                kind = None; cs = []
                for g, val in per:
                    if val is a: continue
                    if val.k == 'and' and a in val.a:
                        kd = 'and'; rest = And(*[x for x in val.a if x is not a])
                    elif val.k == 'or' and a in val.a:
                        kd = 'or'; rest = Or(*[x for x in val.a if x is not a])
                    elif val is TRUE and g is not TRUE: kd = 'or'; rest = TRUE
                    elif val is FALSE and g is not TRUE: kd = 'and'; rest = FALSE
                    else: raise LoopFail('boolean phi %s' % val)
                    if kind not in (None, kd): raise LoopFail('mixed boolean phi')
                    kind = kd
                    cs.append(Implies(g, rest) if kd == 'and' else And(g, rest))
                c = And(*cs) if kind == 'and' else Or(*cs)
                if a.a[0].id in c.vars(): raise LoopFail('boolean phi')
                deltas[ph.res] = (kind, c); collect(c, pct)
            ids = {x.id if isinstance(x, Atom) else x.a[0].id for x in accsym.values()}
        accids = {x.id if isinstance(x, Atom) else x.a[0].id for x in accsym.values()}
        for n, us in new.items():
            for u in us:
                vs = set(u.off.vars()) | (u.val.vars() if isinstance(u.val, (Poly, Cond)) else set()) | u.guard.vars()
                if vs & accids:
                    raise LoopFail('accumulator used inside the loop')
        for d in deltas.values():
            dd = d[1] if isinstance(d, tuple) else d
            if dd is not None and dd.vars() & accids: raise LoopFail('accumulator coupling')
        tp = fresh('tp', 'I')
        for (base, off, width, rpc) in reads:
            n = base[len(tag):]
            for u in new.get(n, []):
                s = {t.id: P(tp)}
                fr = []
                for v, nn in u.vars:
                    w = fresh('w', 'I'); s[v.id] = P(w)
                    fr += [ge(P(w), 0), lt(P(w), subst(nn, s))]
                uo = subst(u.off, s)
                pc2 = rpc + (ge(P(tp), 0), lt(P(tp), P(t))) + tuple(fr)
                if not self.disjoint(pc2, off, width, uo, u.width):
                    if u.sort == 'I' and not u.vars and u.guard is TRUE and u.kind == 'pt' and t.id not in u.off.vars() and isinstance(u.val, Poly) and not self.has_layer(u.off, tag):
                        dd = u.val - P(mk_atom('SEL', (base, u.off, u.width), 'I'))
                        if not self.has_layer(dd, tag) and t.id not in dd.vars() and (n, u.off, u.width) not in self.memind:
                            e = LoopFail('memory induction variable'); e.memind = {(n, u.off, u.width): dd}; raise e
                    raise LoopFail('iteration reads %s[%s] written by an earlier iteration (%s)' % (n, off, uo))
        # pt/acc ordering between iterations on the same object
        last = set()
        for n, us in new.items():
            for i, u in enumerate(us):
                for j, w in enumerate(us):
                    if u.kind == 'acc' and w.kind == 'acc': continue
                    if u.kind == 'pt' and w.kind == 'pt' and i == j:
                        # self overwrite: offsets must be injective in t
                        cc = coeff(u.off, t)
                        if t.id not in u.off.vars():
                            if self.pr.prove(st.pc, le(N, 0)): continue
                            if not u.vars and u.guard is TRUE and isinstance(u.val, (Poly, Cond)):
                                last.add(u); continue      # the last iteration's value remains
                            raise LoopFail('iterations overwrite one location: %s' % u)
                    s = {t.id: P(tp)}; fr = []
                    for v, nn in w.vars:
                        y = fresh('w', 'I'); s[v.id] = P(y); fr += [ge(P(y), 0), lt(P(y), subst(nn, s))]
                    fr2 = []
                    for v, nn in u.vars: fr2 += [ge(P(v), 0), lt(P(v), nn)]
                    pc2 = pct + tuple(fr2) + (ge(P(tp), 0), lt(P(tp), N), Not(eq0(P(tp) - P(t), 'I'))) + tuple(fr)
                    if not self.disjoint(pc2, u.off, u.width, subst(w.off, s), w.width):
                        raise LoopFail('iterations write the same location: %s / %s' % (u, w))
        # ---- apply
        s3 = st.fork()
        res = lambda x, pc: self.resolve(x, tag, st, pc)
        for n, us in new.items():
            o = s3.mem[n]; ups = o.upds
            for u in us:
                vpc = pct
                for v, nn in u.vars: vpc = vpc + (ge(P(v), 0), lt(P(v), nn))
                val = u.val
                if isinstance(val, (Poly, Cond)): val = res(val, vpc)
                if u in last:
                    sl = {t.id: N - 1}
                    g = ge(N, 1)
                    if self.pr.prove(st.pc, g): g = TRUE
                    elif self.pr.prove(st.pc, Not(g)): continue
                    ups = ups + (Upd('pt', res(u.off, vpc), subst(val, sl), u.width, u.sort, (), g),); continue
                ups = ups + (Upd(u.kind, res(u.off, vpc), val, u.width, u.sort, ((t, N),) + tuple((v, res(nn, pct)) for v, nn in u.vars), res(u.guard, vpc)),)
            s3.mem[n] = Obj(o.name, o.base, ups, o.size, o.meta)
        for (n, off, w), (v0, d) in mind.items(): self.write(s3, Ptr(n, off), v0 + d * N, w, 'I')
        e3 = dict(env)
        sub = {t.id: N}
        for ph in H.phis:
            if ph.res in form:
                v = form[ph.res]
                e3[ph.res] = Ptr(v.obj, subst(v.off, sub)) if isinstance(v, Ptr) else subst(v, sub)
            else:
                d = deltas[ph.res]; v0 = init[ph.res]
                if isinstance(d, tuple):
                    kind, c = d
                    if kind is None: e3[ph.res] = v0; continue
                    c = res(c, pct); v0 = asbool(v0)
                    if kind == 'and': r = And(v0, forall(t, ZERO, N - 1, c))
                    else: r = Or(v0, Not(forall(t, ZERO, N - 1, Not(c))))
                    e3[ph.res] = r if ph.ty[1] == 1 else b2i(r)
                else:
                    e3[ph.res] = v0 + mk_sum(t, ZERO, N - 1, res(d, pct))
        self.summarised += 1
        # ---- final partial iteration (must exit)
        s3 = s3.fork(subst(Not(used), sub)) if subst(Not(used), sub) is not TRUE else s3
        outs = self.run(s3, e3, f, L.header, prev, L.body, skip_loop=L.header)
        ret = []
        for o in outs:
            if o.kind == 'ret': ret.append((o.st, o.env, o.data, None)); continue
            if o.data[1] == L.header:
                if self.pr.feasible(o.st.pc): raise LoopFail('exit not taken at the computed trip count')
                continue
            ret.append((o.st, o.env, o.data[0], o.data[1]))
        return ret
    def header_bound(self, st, env, f, L, form, accs, t):
        """upper bound of the iteration index at the header, from an exit test in the header block (or None)"""
        H = f.blocks[L.header]
        if H.term.op != 'condbr': return None
        tb, fb = H.term.a[1], H.term.a[2]
        if (tb in L.body) == (fb in L.body): return None
        if any(ph.res not in form for ph in H.phis) and False: return None
        s1, tag = self.layer(st)
        s1 = s1.fork(ge(P(t), 0)); e1 = dict(env)
        for ph in H.phis:
            if ph.res in form: e1[ph.res] = form[ph.res]
            elif ph.ty[0] == 'fp': e1[ph.res] = P(fresh('hb', 'R'))
            else:
                b = fresh_bool('hb'); e1[ph.res] = b if ph.ty[1] == 1 else b2i(b)
        try:
            outs = self.block_body(s1, e1, f, H)
            if len(outs) != 1: return None
            s2, e2 = outs[0]
            c = self.const(H.term.a[0], ('int', 1), s2, e2)
            if isinstance(c, Poly): c = i2b(c)
        except (Unsupported, NeedSplit): return None
        if tb not in L.body: c = Not(c)
        if not isinstance(c, Cond) or self.has_layer(c, tag): return None
        conj = c.a if c.k == 'and' else (c,)
        for x in conj:
            if t.id not in x.vars(): continue
            T = self.trip(st.pc, x, t)
            if T is not None and (T[1] is None or self.pr.prove(st.pc, T[1])): return P(T[0])
        return None
    def trip(self, pc, c, t):
        """c(t): condition to continue. -> (N, side condition that must hold for the formula) or None"""
        neq = False
        if c.k == 'not' and c.a[0].k == 'eq0': p = c.a[0].a[0]; neq = True
        elif c.k == 'le0' and c.a[1] == 'I': p = c.a[0]
        else: return None
        cc = coeff(p, t)
        if cc is None: return None
        a, b = cc
        av = a.cval()
        if av is None:
            # symbolic stride: exact division only
            n = exact_div(-b, a)
            if neq and n is not None: return n, ge(n, 0)
            if not neq:
                # a*t + b <= 0 with  b = 1 - a*m  (strict bound on a multiple): t <= m - 1
                n = exact_div(1 - b, a)
                if n is not None and self.pr.prove(pc, ge(a, 1)): return n, ge(n, 0)
                n = exact_div(-b, a)
                if n is not None and self.pr.prove(pc, ge(a, 1)): return n + 1, ge(n + 1, 0)
            return None
        if neq:
            n = exact_div(-b, P(av))
            if n is None or not a_int_coef(n): return None
            return n, ge(n, 0)
        if av > 0:
            if av == 1: return -b + 1, ge(-b + 1, 0)
            # floor(-b/av)+1
            for r in range(int(av)):
                n = exact_div(-b - r, P(av))
                if n is not None and a_int_coef(n): return n + 1, ge(n + 1, 0)
            return None
        return None
    def collect_reads(self, x, tag, pc, out):
        if isinstance(x, Poly):
            for a in x.atoms(): self._cra(ATOMS[a], tag, pc, out)
        elif isinstance(x, Cond):
            if x.k == 'forall':
                v = fresh('q', 'I'); self.collect_reads(x.a[1], tag, pc, out); self.collect_reads(x.a[2], tag, pc, out)
                s = {x.a[0]: P(v)}
                self.collect_reads(subst(x.a[3], s), tag, pc + (ge(P(v), x.a[1]), le(P(v), x.a[2])), out); return
            if x.k == 'selb' and str(x.a[0]).startswith(tag): out.append((x.a[0], x.a[1], 1, pc))
            for y in x.a:
                if isinstance(y, (Poly, Cond)): self.collect_reads(y, tag, pc, out)
    def _cra(self, a, tag, pc, out):
        if a.kind == 'SEL':
            if str(a.args[0]).startswith(tag): out.append((a.args[0], a.args[1], a.args[2], pc))
            self.collect_reads(a.args[1], tag, pc, out)
        elif a.kind == 'SUM':
            v = fresh('q', 'I')
            self.collect_reads(a.args[1], tag, pc, out); self.collect_reads(a.args[2], tag, pc, out)
            self.collect_reads(subst(a.args[3], {a.args[0]: P(v)}), tag, pc + (ge(P(v), a.args[1]), le(P(v), a.args[2])), out)
        elif a.kind == 'ITE':
            self.collect_reads(a.args[0], tag, pc, out)
            self.collect_reads(a.args[1], tag, pc + (a.args[0],), out)
            self.collect_reads(a.args[2], tag, pc + (Not(a.args[0]),), out)
        else:
            for y in a.args: self.collect_reads(y, tag, pc, out)
    def resolve(self, x, tag, st, pc, memo=None):
        """replace reads of layer `tag` by reads of the memory below"""
        if not self.has_layer(x, tag): return x
        if isinstance(x, Ptr): return Ptr(x.obj, self.resolve(x.off, tag, st, pc))
        if isinstance(x, Poly):
            out = ZERO
            for m, c in x.d.items():
                tt = P(c)
                for a, e in m:
                    pa = self._resa(ATOMS[a], tag, st, pc)
                    if e > 0: tt = tt * pa ** e
                    else: tt = tt * inverse(pa) ** (-e)
                out = out + tt
            return out
        if isinstance(x, Cond):
            k = x.k
            if k == 'forall':
                v = fresh('q', 'I')
                lo = self.resolve(x.a[1], tag, st, pc); hi = self.resolve(x.a[2], tag, st, pc)
                b = self.resolve(subst(x.a[3], {x.a[0]: P(v)}), tag, st, pc + (ge(P(v), lo), le(P(v), hi)))
                return forall(v, lo, hi, b)
            if k == 'selb' and str(x.a[0]).startswith(tag):
                s2 = State(pc, st.mem)
                return self.coerce(self.read_obj(s2, self.layers[x.a[0]], self.resolve(x.a[1], tag, st, pc), 1, 'B'), ('int', 1))
            s = [self.resolve(y, tag, st, pc) if isinstance(y, (Poly, Cond)) else y for y in x.a]
            if k == 'not': return Not(s[0])
            if k == 'and': return And(*s)
            if k == 'or': return Or(*s)
            if k == 'iff': return Iff(*s)
            if k == 'le0': return le0(s[0], x.a[1])
            if k == 'lt0': return lt0(s[0], x.a[1])
            if k == 'eq0': return eq0(s[0], x.a[1])
            return mk(k, *s)
        return x
    def _resa(self, a, tag, st, pc):
        if a.kind == 'VAR': return P(a)
        if a.kind == 'SEL':
            off = self.resolve(a.args[1], tag, st, pc)
            if str(a.args[0]).startswith(tag):
                s2 = State(pc, st.mem)
                v = self.read_obj(s2, self.layers[a.args[0]], off, a.args[2], a.sort)
                if isinstance(v, Cond): v = b2i(v)
                if v is UNDEF: raise LoopFail('uninitialised read in loop')
                return v
            return P(mk_atom('SEL', (a.args[0], off, a.args[2]), a.sort))
        if a.kind == 'SUM':
            v = fresh('q', 'I')
            lo = self.resolve(a.args[1], tag, st, pc); hi = self.resolve(a.args[2], tag, st, pc)
            b = self.resolve(subst(a.args[3], {a.args[0]: P(v)}), tag, st, pc + (ge(P(v), lo), le(P(v), hi)))
            return mk_sum(v, lo, hi, b)
        if a.kind == 'ITE':
            c = self.resolve(a.args[0], tag, st, pc)
            return ite(c, self.resolve(a.args[1], tag, st, pc + (c,)), self.resolve(a.args[2], tag, st, pc + (Not(c),)))
        if a.kind == 'INV': return inverse(self.resolve(a.args[0], tag, st, pc))
        if a.kind == 'B2I': return b2i(self.resolve(a.args[0], tag, st, pc))
        return P(mk_atom(a.kind, tuple(self.resolve(y, tag, st, pc) if isinstance(y, (Poly, Cond)) else y for y in a.args), a.sort))

class LoopFail(Unsupported): pass
def asbool(v):
    if isinstance(v, Cond): return v
    if isinstance(v, Poly):
        c = v.cval()
        if c in (0, 1): return TRUE if c else FALSE
        if len(v.d) == 1:
            (m, co), = v.d.items()
            if co == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'B2I': return ATOMS[m[0][0]].args[0]
    return None
class NeedSplit(Exception):
    def __init__(self, c): self.c = c
class PtrInt:
    def __init__(self, p): self.p = p

def exact_div(p, q):
    """p / q for a single monomial (or proportional) q, when the result has no new denominators; else None"""
    p = P(p); q = P(q)
    if not p.d: return ZERO
    if len(q.d) == 1:
        r = p / q
        for m, c in r.d.items():
            if c.denominator != 1: return None
            if any(e < 0 for a, e in m): return None
        return r
    # polynomial long division in lexicographic order
    return poly_div(p, q)
def poly_div(p, q):
    lead = max(q.d, key=lambda m: (sum(e for a, e in m), m)); lc = q.d[lead]
    inv = tuple((a, -e) for a, e in lead)
    rem = p; out = ZERO
    for _ in range(50):
        if not rem.d: return out
        m = max(rem.d, key=lambda m: (sum(e for a, e in m), m))
        qm = mono_mul(m, inv)
        if any(e < 0 for a, e in qm): return None
        c = rem.d[m] / lc
        if c.denominator != 1: return None
        term = Poly({qm: c}); out = out + term; rem = rem - term * q
    return None
