"""Hash-consed terms: integer/real Laurent polynomials over atoms, boolean conditions, formal finite sums.

A Poly is a finite map monomial -> Fraction, a monomial is a sorted tuple of (atom id, nonzero exponent).
Atoms: VAR, SEL (content of a memory base at a byte offset), APP (uninterpreted application),
ITE, INV (1/p of a non-monomial p), SUM (sum_{v=lo}^{hi} body, signed-range convention), BOOL2INT.
"""
from fractions import Fraction as Fr

ATOMS = []          # id -> Atom
_intern = {}

class Atom:
    __slots__ = ('id', 'kind', 'args', 'sort', 'vars')
    def __repr__(self):
        return show_atom(self)

def mk_atom(kind, args, sort):
    key = (kind, args, sort)
    a = _intern.get(key)
    if a is None:
        a = Atom(); a.id = len(ATOMS); a.kind = kind; a.args = args; a.sort = sort
        vs = set()
        if kind == 'VAR':
            vs.add(a.id)
        else:
            for x in args:
                if isinstance(x, Poly): vs |= x.vars()
                elif isinstance(x, Cond): vs |= x.vars()
            if kind in ('SUM', 'PSUM'):
                vs.discard(args[0])
        a.vars = frozenset(vs)
        ATOMS.append(a); _intern[key] = a
    return a

class Poly:
    __slots__ = ('d', '_h', '_v')
    def __init__(self, d):
        self.d = d; self._h = None; self._v = None
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.d.items()))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d
    def __ne__(self, o): return not self == o
    def vars(self):
        if self._v is None:
            s = set()
            for m in self.d:
                for a, e in m: s |= ATOMS[a].vars
            self._v = frozenset(s)
        return self._v
    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m: s.add(a)
        return s
    def is_const(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def const(self): return self.d.get((), Fr(0))
    def cval(self):
        """constant value or None"""
        if not self.d: return Fr(0)
        if len(self.d) == 1 and () in self.d: return self.d[()]
        return None
    def __add__(self, o):
        o = P(o)
        if not o.d: return self
        if not self.d: return o
        d = dict(self.d)
        for m, c in o.d.items():
            n = d.get(m, 0) + c
            if n: d[m] = n
            else: d.pop(m, None)
        return Poly(d)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        o = P(o)
        a, b = self.d, o.d
        if not a or not b: return ZERO
        if len(b) == 1 and () in b:
            c = b[()]
            return self if c == 1 else Poly({m: v * c for m, v in a.items()})
        if len(a) == 1 and () in a:
            c = a[()]
            return o if c == 1 else Poly({m: v * c for m, v in b.items()})
        d = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                n = d.get(m, 0) + c1 * c2
                if n: d[m] = n
                else: d.pop(m, None)
        return inv_simplify(Poly(d))
    __rmul__ = __mul__
    def __truediv__(self, o):
        return self * inverse(P(o))
    def __pow__(self, n):
        r = ONE
        for _ in range(n): r = r * self
        return r
    def __repr__(self): return show(self)
    def is_int(self):
        return all(ATOMS[a].sort == 'I' for a in self.atoms())

def mono_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n: d[a] = n
        else: del d[a]
    return tuple(sorted(d.items()))

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x.id, 1),): Fr(1)})
    if isinstance(x, bool): x = int(x)
    if isinstance(x, (int, Fr)): return Poly({(): Fr(x)}) if x else ZERO
    raise TypeError(repr(x))
ZERO = Poly({})
ONE = Poly({(): Fr(1)})

def inv_simplify(p):
    """p * INV(q) with q non monomial: rewrite q*INV(q) = 1 when p/q is exactly recognisable.
    We only handle it in equality checking (clear_inv); nothing to do here."""
    return p

def inverse(p):
    if not p.d: raise ZeroDivisionError('1/0')
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return Poly({tuple((a, -e) for a, e in m): 1 / c})
    # pull out a canonical factor: monomial gcd and leading coefficient
    ms = list(p.d)
    g = {}
    for a, e in ms[0]: g[a] = e
    for m in ms[1:]:
        dm = dict(m)
        for a in list(g):
            e = dm.get(a)
            if e is None: del g[a]
            else: g[a] = min(g[a], e)
    g = {a: e for a, e in g.items() if e != 0}
    gm = tuple(sorted(g.items()))
    gi = tuple((a, -e) for a, e in gm)
    q = {}
    for m, c in p.d.items(): q[mono_mul(m, gi)] = c
    lead = q[min(q)]
    q = Poly({m: c / lead for m, c in q.items()})
    at = mk_atom('INV', (q,), 'R')
    return Poly({mono_mul(gi, ((at.id, 1),)): 1 / lead})

def var(name, sort='I'): return mk_atom('VAR', (name, sort), sort)
_cnt = [0]
def fresh(name, sort='I'):
    _cnt[0] += 1
    return mk_atom('VAR', ('%s!%d' % (name, _cnt[0]), sort), sort)
def sel(base, off, sort, width=8):
    return P(mk_atom('SEL', (base, P(off), width), sort))
def app(f, args, sort):
    return P(mk_atom('APP', (f,) + tuple(P(a) if not isinstance(a, (str, Cond)) else a for a in args), sort))
def ite(c, a, b):
    a = P(a); b = P(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a == b: return a
    srt = 'I' if (a.is_int() and b.is_int() and a_int_coef(a) and a_int_coef(b)) else 'R'
    return P(mk_atom('ITE', (c, a, b), srt))
def a_int_coef(p): return all(c.denominator == 1 for c in p.d.values())

# --------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('k', 'a', '_v', 'id')
    def vars(self):
        if self._v is None:
            s = set()
            for x in self.a:
                if isinstance(x, (Poly, Cond, Atom)): s |= (x.vars if isinstance(x, Atom) else x.vars())
            if self.k in ('forall',): s.discard(self.a[0])
            self._v = frozenset(s)
        return self._v
    def __repr__(self): return show_cond(self)
_cint = {}
def mk(k, *a):
    key = (k,) + a
    c = _cint.get(key)
    if c is None:
        c = Cond(); c.k = k; c.a = a; c._v = None; c.id = len(_cint)
        _cint[key] = c
    return c
TRUE = mk('true'); FALSE = mk('false')
def Not(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.k == 'not': return c.a[0]
    if c.k == 'le0' and c.a[1] == 'I': return le0(1 - c.a[0], 'I')
    if c.k == 'le0': return lt0(-c.a[0], 'R')
    if c.k == 'lt0': return le0(-c.a[0], 'R')
    if c.k == 'and': return Or(*[Not(x) for x in c.a])
    if c.k == 'or': return And(*[Not(x) for x in c.a])
    return mk('not', c)
def And(*cs):
    out = []
    for c in cs:
        if c is FALSE: return FALSE
        if c is TRUE: continue
        if c.k == 'and': out.extend(x for x in c.a if x not in out)
        elif c not in out: out.append(c)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', *out)
def Or(*cs):
    out = []
    for c in cs:
        if c is TRUE: return TRUE
        if c is FALSE: continue
        if c.k == 'or': out.extend(x for x in c.a if x not in out)
        elif c not in out: out.append(c)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', *out)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if a is b: return TRUE
    return mk('iff', a, b)
def _norm(p):
    """scale to coprime integer coefficients (keeps the sign)"""
    if not p.d: return p
    import math
    l = 1
    for c in p.d.values(): l = l * c.denominator // math.gcd(l, c.denominator)
    g = 0
    for c in p.d.values(): g = math.gcd(g, int(c * l))
    s = Fr(l, g)
    return p if s == 1 else Poly({m: c * s for m, c in p.d.items()})
def le0(p, sort=None):
    p = P(p); sort = sort or ('I' if p.is_int() else 'R')
    c = p.cval()
    if c is not None: return TRUE if c <= 0 else FALSE
    return mk('le0', _norm(p), sort)
def lt0(p, sort=None):
    p = P(p); sort = sort or ('I' if p.is_int() else 'R')
    if sort == 'I': return le0(p + 1, 'I')
    c = p.cval()
    if c is not None: return TRUE if c < 0 else FALSE
    return mk('lt0', _norm(p), sort)
def eq0(p, sort=None):
    p = P(p); sort = sort or ('I' if p.is_int() else 'R')
    c = p.cval()
    if c is not None: return TRUE if c == 0 else FALSE
    if len(p.d) == 1:
        (m, _c), = p.d.items()
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'B2I': return Not(ATOMS[m[0][0]].args[0])
    p = _norm(p)
    if p.d[min(p.d)] < 0: p = -p
    return mk('eq0', p, sort)
def le(a, b): return le0(P(a) - P(b))
def lt(a, b): return lt0(P(a) - P(b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b): return eq0(P(a) - P(b))
def ne(a, b): return Not(eq(a, b))
def bvar(name): return mk('bvar', var(name, 'B'))
def fresh_bool(name): return mk('bvar', fresh(name, 'B'))
def forall(v, lo, hi, body):
    """v: Atom (bound), lo..hi inclusive polys"""
    if body is TRUE: return TRUE
    return mk('forall', v.id, P(lo), P(hi), body)
def sel_bool(base, off): return mk('selb', base, P(off))
def app_bool(f, *args): return mk('appb', f, *[a if isinstance(a, (str, Cond)) else P(a) for a in args])
def b2i(c):
    if c is TRUE: return ONE
    if c is FALSE: return ZERO
    return P(mk_atom('B2I', (c,), 'I'))
def i2b(p):
    """p known to be 0/1 valued"""
    c = p.cval()
    if c is not None: return TRUE if c else FALSE
    if len(p.d) == 1:
        (m, co), = p.d.items()
        if co == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'B2I':
            return ATOMS[m[0][0]].args[0]
    return Not(eq0(p, 'I'))

# --------------------------------------------------------------- substitution
def subst(x, s, memo=None):
    """s: dict var-atom-id -> Poly (or Cond for boolean vars). Works on Poly / Cond."""
    if memo is None: memo = {}
    return _sub(x, s, memo, frozenset(s))
def _sub(x, s, memo, keys):
    if isinstance(x, Poly):
        if not (x.vars() & keys): return x
        r = memo.get(x)
        if r is not None: return r
        out = ZERO
        for m, c in x.d.items():
            t = P(c)
            for a, e in m:
                pa = _sub_atom(ATOMS[a], s, memo, keys)
                if e > 0:
                    for _ in range(e): t = t * pa
                else:
                    ip = inverse(pa)
                    for _ in range(-e): t = t * ip
            out = out + t
        memo[x] = out
        return out
    if isinstance(x, Cond):
        if not (x.vars() & keys): return x
        r = memo.get(x)
        if r is None:
            r = _sub_cond(x, s, memo, keys); memo[x] = r
        return r
    return x
def _sub_cond(c, s, memo, keys):
    k = c.k
    if k == 'bvar':
        v = s.get(c.a[0].id)
        return v if v is not None else c
    if k == 'not': return Not(_sub(c.a[0], s, memo, keys))
    if k == 'and': return And(*[_sub(x, s, memo, keys) for x in c.a])
    if k == 'or': return Or(*[_sub(x, s, memo, keys) for x in c.a])
    if k == 'iff': return Iff(_sub(c.a[0], s, memo, keys), _sub(c.a[1], s, memo, keys))
    if k == 'le0': return le0(_sub(c.a[0], s, memo, keys), c.a[1])
    if k == 'lt0': return lt0(_sub(c.a[0], s, memo, keys), c.a[1])
    if k == 'eq0': return eq0(_sub(c.a[0], s, memo, keys), c.a[1])
    if k == 'forall':
        assert c.a[0] not in keys
        return forall(ATOMS[c.a[0]], _sub(c.a[1], s, memo, keys), _sub(c.a[2], s, memo, keys), _sub(c.a[3], s, memo, keys))
    if k in ('selb', 'appb'):
        return mk(k, *[_sub(y, s, memo, keys) if isinstance(y, (Poly, Cond)) else y for y in c.a])
    raise ValueError(k)
def _sub_atom(a, s, memo, keys):
    if a.kind == 'VAR':
        v = s.get(a.id)
        return v if v is not None else P(a)
    if not (a.vars & keys): return P(a)
    r = memo.get(a.id)
    if r is not None: return r
    if a.kind == 'PSUM' and a.args[0] in keys:
        s = {k: v for k, v in s.items() if k != a.args[0]}; keys = frozenset(s); memo = {}
    args = tuple(_sub(y, s, memo, keys) if isinstance(y, (Poly, Cond)) else y for y in a.args)
    if a.kind == 'SUM':
        assert a.args[0] not in keys
        r = P(mk_sum(ATOMS[a.args[0]], args[1], args[2], args[3]))
    elif a.kind == 'ITE': r = ite(*args)
    elif a.kind == 'INV': r = inverse(args[0])
    elif a.kind == 'B2I': r = b2i(args[0])
    else: r = P(mk_atom(a.kind, args, a.sort))
    memo[a.id] = r
    return r

def mk_sum(v, lo, hi, body):
    """sum_{v=lo}^{hi} body as Poly (v an Atom of sort I); renames v to a fresh canonical level variable"""
    body = P(body); lo = P(lo); hi = P(hi)
    if not body.d: return ZERO
    d = (hi - lo).cval()
    if d is not None and d < 0 and d == -1: return ZERO
    if d is not None and 0 <= d <= 12:
        out = ZERO
        for i in range(int(d) + 1): out = out + subst(body, {v.id: lo + i})
        return out
    lev = 1 + depth(body)
    cv = var('#%d' % lev, 'I')
    if cv is not v: body = subst(body, {v.id: P(cv)})
    return P(mk_atom('SUM', (cv.id, lo, hi, body), 'R'))
_depth = {}
def depth(x):
    if isinstance(x, Poly):
        r = 0
        for a in x.atoms():
            r = max(r, depth(ATOMS[a]))
        return r
    if isinstance(x, Cond):
        r = 0
        for y in x.a:
            if isinstance(y, (Poly, Cond)): r = max(r, depth(y))
        if x.k == 'forall': r += 1
        return r
    if isinstance(x, Atom):
        r = _depth.get(x.id)
        if r is None:
            r = 0
            for y in x.args:
                if isinstance(y, (Poly, Cond)): r = max(r, depth(y))
            if x.kind == 'SUM': r += 1
            if x.kind == 'VAR' and str(x.args[0]).startswith('#'): r = int(x.args[0][1:])
            _depth[x.id] = r
        return r
    return 0

def coeff(p, atom):
    """(c1, c0) with p = c1*atom + c0, if p is linear in atom (and the atom does not occur inside other atoms)"""
    c1 = {}; c0 = {}
    for m, c in p.d.items():
        hit = None
        for a, e in m:
            if a == atom.id: hit = e
            elif atom.id in ATOMS[a].vars: return None
        if hit is None: c0[m] = c
        elif hit == 1: c1[tuple((a, e) for a, e in m if a != atom.id)] = c
        else: return None
    return Poly(c1), Poly(c0)

# --------------------------------------------------------------- printing
def show(p):
    if not p.d: return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda x: repr(x[0])):
        f = []
        if c != 1 or not m: f.append(str(c))
        for a, e in m: f.append(show_atom(ATOMS[a]) + ('' if e == 1 else '^%d' % e))
        out.append('*'.join(f))
    return ' + '.join(out)
def show_atom(a):
    if a.kind == 'VAR': return str(a.args[0])
    if a.kind == 'SEL': return '%s[%s]' % (a.args[0], show(a.args[1]))
    if a.kind == 'APP': return '%s(%s)' % (a.args[0], ', '.join(map(str, a.args[1:])))
    if a.kind == 'SUM': return 'SUM{%s=%s..%s}(%s)' % (ATOMS[a.args[0]].args[0], a.args[1], a.args[2], a.args[3])
    if a.kind == 'INV': return 'INV(%s)' % (a.args[0],)
    if a.kind == 'ITE': return 'ite(%s, %s, %s)' % a.args
    if a.kind == 'B2I': return 'b2i(%s)' % (a.args[0],)
    return '%s%s' % (a.kind, a.args)
def show_cond(c):
    if c.k in ('true', 'false'): return c.k
    if c.k == 'le0': return '(%s <= 0)' % c.a[0]
    if c.k == 'lt0': return '(%s < 0)' % c.a[0]
    if c.k == 'eq0': return '(%s == 0)' % c.a[0]
    if c.k == 'bvar': return str(c.a[0].args[0])
    if c.k == 'not': return '!%s' % c.a[0]
    if c.k == 'forall': return 'forall %s in [%s,%s]: %s' % (ATOMS[c.a[0]].args[0], c.a[1], c.a[2], c.a[3])
    return '%s(%s)' % (c.k, ', '.join(map(str, c.a)))
