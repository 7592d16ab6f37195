"""Specification of the variable operators: what each result row must satisfy.

Every result row r has   zero(V)  = required order-zero value (V(row) reads order zero of a row)
and  eq = list of terms whose j-th Taylor coefficient must sum to zero for j >= 1.
Terms (c is a coefficient function of V):
  ('dmul', c, a, b)  c * [ a * b' ]      coefficient  sum_{k=1..j} k b_k a_{j-k}
  ('d',    c, b)     c * [ b' ]          coefficient  j b_j
  ('mul',  c, a, b)  c * [ a * b ]       coefficient  sum_{k=0..j} a_k b_{j-k}
  ('lin',  c, a)     c * [ a ]
(a primed relation is the chain rule with respect to the argument of the expansion, so its order zero
 linearisation is obtained by replacing b' by the tangent of b).
row names: 'x','y' variable arguments, 'z0' primary result, 'z1'.. auxiliary results (row index i_z - n),
'p' the parameter argument (order zero only).
"""
class Op:
    def __init__(self, name, args, rows, enum, dir=True, rev=True, fwd0=True, sig='unary', elim=None, special=None):
        self.name = name      # function prefix
        self.args = args      # e.g. 'v', 'vv', 'pv', 'vp'
        self.rows = rows      # list of (row, zero, eq), in elimination order for reverse (primary first)
        self.enum = enum
        self.dir = dir; self.rev = rev; self.fwd0 = fwd0; self.sig = sig
        self.special = special
    def nres(self): return len(self.rows)
    def row(self, r):
        for x in self.rows:
            if x[0] == r: return x
def f1(n): return lambda M, V: M.fn(n, V('x'))
C = lambda v: (lambda M, V: M.num(v))
one = C(1); mone = C(-1)
par = lambda M, V: V('p')
mpar = lambda M, V: -V('p')

OPS = []
def unary(name, rows, **kw): OPS.append(Op(name, 'v', rows, name, **kw))
Z = 'z0'; A = 'z1'
unary('exp',   [(Z, f1('exp'), [('d', one, Z), ('dmul', mone, Z, 'x')])])
unary('expm1', [(Z, f1('expm1'), [('d', one, Z), ('d', mone, 'x'), ('dmul', mone, Z, 'x')])])
unary('log',   [(Z, f1('log'), [('dmul', one, 'x', Z), ('d', mone, 'x')])])
unary('log1p', [(Z, f1('log1p'), [('d', one, Z), ('dmul', one, 'x', Z), ('d', mone, 'x')])])
unary('sqrt',  [(Z, f1('sqrt'), [('mul', one, Z, Z), ('lin', mone, 'x')])])
unary('neg',   [(Z, lambda M, V: -V('x'), [('lin', one, Z), ('lin', one, 'x')])])
sgn = lambda M, V: M.sign(V('x'))
msgn = lambda M, V: -M.sign(V('x'))
unary('abs',   [(Z, lambda M, V: M.abs(V('x')), [('lin', one, Z), ('lin', msgn, 'x')])])
unary('sign',  [(Z, sgn, [('lin', one, Z)])])
unary('sin',   [(Z, f1('sin'), [('d', one, Z), ('dmul', mone, A, 'x')]), (A, f1('cos'), [('d', one, A), ('dmul', one, Z, 'x')])])
unary('cos',   [(Z, f1('cos'), [('d', one, Z), ('dmul', one, A, 'x')]), (A, f1('sin'), [('d', one, A), ('dmul', mone, Z, 'x')])])
unary('sinh',  [(Z, f1('sinh'), [('d', one, Z), ('dmul', mone, A, 'x')]), (A, f1('cosh'), [('d', one, A), ('dmul', mone, Z, 'x')])])
unary('cosh',  [(Z, f1('cosh'), [('d', one, Z), ('dmul', mone, A, 'x')]), (A, f1('sinh'), [('d', one, A), ('dmul', mone, Z, 'x')])])
zz = lambda M, V: V(Z) * V(Z)
unary('tan',   [(Z, f1('tan'), [('d', one, Z), ('d', mone, 'x'), ('dmul', mone, A, 'x')]), (A, zz, [('lin', one, A), ('mul', mone, Z, Z)])])
unary('tanh',  [(Z, f1('tanh'), [('d', one, Z), ('d', mone, 'x'), ('dmul', one, A, 'x')]), (A, zz, [('lin', one, A), ('mul', mone, Z, Z)])])
def sq(s, c): return lambda M, V: M.fn('sqrt', M.num(c) + M.num(s) * V('x') * V('x'))
unary('asin',  [(Z, f1('asin'), [('dmul', one, A, Z), ('d', mone, 'x')]), (A, sq(-1, 1), [('mul', one, A, A), ('mul', one, 'x', 'x')])])
unary('acos',  [(Z, f1('acos'), [('dmul', one, A, Z), ('d', one, 'x')]), (A, sq(-1, 1), [('mul', one, A, A), ('mul', one, 'x', 'x')])])
unary('asinh', [(Z, f1('asinh'), [('dmul', one, A, Z), ('d', mone, 'x')]), (A, sq(1, 1), [('mul', one, A, A), ('mul', mone, 'x', 'x')])])
unary('acosh', [(Z, f1('acosh'), [('dmul', one, A, Z), ('d', mone, 'x')]), (A, sq(1, -1), [('mul', one, A, A), ('mul', mone, 'x', 'x')])])
unary('atan',  [(Z, f1('atan'), [('dmul', one, A, Z), ('d', mone, 'x')]), (A, lambda M, V: M.num(1) + V('x') * V('x'), [('lin', one, A), ('mul', mone, 'x', 'x')])])
unary('atanh', [(Z, f1('atanh'), [('dmul', one, A, Z), ('d', mone, 'x')]), (A, lambda M, V: M.num(1) - V('x') * V('x'), [('lin', one, A), ('mul', one, 'x', 'x')])])
def binary(name, args, rows, **kw): OPS.append(Op(name, args, rows, name, sig='binary', **kw))
binary('addvv', 'vv', [(Z, lambda M, V: V('x') + V('y'), [('lin', one, Z), ('lin', mone, 'x'), ('lin', mone, 'y')])])
binary('addpv', 'pv', [(Z, lambda M, V: V('p') + V('y'), [('lin', one, Z), ('lin', mone, 'y')])])
binary('subvv', 'vv', [(Z, lambda M, V: V('x') - V('y'), [('lin', one, Z), ('lin', mone, 'x'), ('lin', one, 'y')])])
binary('subpv', 'pv', [(Z, lambda M, V: V('p') - V('y'), [('lin', one, Z), ('lin', one, 'y')])])
binary('subvp', 'vp', [(Z, lambda M, V: V('x') - V('p'), [('lin', one, Z), ('lin', mone, 'x')])])
for z in ('', 'z'):
    binary(z + 'mulvv', 'vv', [(Z, lambda M, V: V('x') * V('y'), [('lin', one, Z), ('mul', mone, 'x', 'y')])])
    binary(z + 'mulpv', 'pv', [(Z, lambda M, V: V('p') * V('y'), [('lin', one, Z), ('lin', mpar, 'y')])])
binary('zmulvp', 'vp', [(Z, lambda M, V: V('x') * V('p'), [('lin', one, Z), ('lin', mpar, 'x')])])
binary('divvv', 'vv', [(Z, lambda M, V: V('x') / V('y'), [('mul', one, Z, 'y'), ('lin', mone, 'x')])])
binary('divpv', 'pv', [(Z, lambda M, V: V('p') / V('y'), [('mul', one, Z, 'y')])])
binary('divvp', 'vp', [(Z, lambda M, V: V('x') / V('p'), [('lin', par, Z), ('lin', mone, 'x')])])
# z = pow(x, y):  z2 = log x, z1 = z2 * y, z0 = exp(z1) (order zero: pow)
binary('powvv', 'vv', [(Z, lambda M, V: M.fn('pow', V('x'), V('y')), [('d', one, Z), ('dmul', mone, Z, 'z1')]),
                       ('z1', lambda M, V: V('z2') * V('y'), [('lin', one, 'z1'), ('mul', mone, 'z2', 'y')]),
                       ('z2', f1('log'), [('dmul', one, 'x', 'z2'), ('d', mone, 'x')])])
binary('powpv', 'pv', [(Z, lambda M, V: M.fn('pow', V('p'), V('y')), [('d', one, Z), ('dmul', mone, Z, 'z1')]),
                       ('z1', lambda M, V: V('z2') * V('y'), [('lin', one, 'z1'), ('lin', lambda M, V: -V('z2'), 'y')]),
                       ('z2', lambda M, V: M.fn('log', V('p')), [('lin', one, 'z2')])])
binary('powvp', 'vp', [(Z, lambda M, V: M.fn('pow', V('x'), V('p')), [('dmul', one, 'x', Z), ('dmul', mpar, Z, 'x')])], special='powvp')
def erfop(name, s):
    return Op('erf', 'v', [
        (Z, f1(name), [('d', one, Z), ('dmul', C(-s), 'z1', 'x')]),
        ('z1', lambda M, V: V('q') * V('z2'), [('lin', one, 'z1'), ('lin', lambda M, V: -V('q'), 'z2')]),
        ('z2', lambda M, V: M.fn('exp', V('z3')), [('d', one, 'z2'), ('dmul', mone, 'z2', 'z3')]),
        ('z3', lambda M, V: V('p') - V('z4'), [('lin', one, 'z3'), ('lin', one, 'z4')]),
        ('z4', lambda M, V: V('x') * V('x'), [('lin', one, 'z4'), ('mul', mone, 'x', 'x')])], name, sig='erf')
OPS.append(erfop('erf', 1)); OPS.append(erfop('erfc', -1))
