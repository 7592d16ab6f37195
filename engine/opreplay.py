"""Native replay of the operator contracts: runs the compiled operator functions of /repo on concrete inputs and
evaluates the relations of opspec numerically.  Used to turn a failed obligation into a failing input (bounded)."""
import ctypes, math, random, subprocess, re, sys
import build, opspec, varop
addr_t = ctypes.c_uint
class NumM:
    def fn(self, n, *a):
        return getattr(math, n)(*a) if n != 'pow' else (a[0] ** a[1])
    def num(self, v): return float(v)
    def sign(self, x): return float((x > 0) - (x < 0))
    def abs(self, x): return abs(x)
NM = NumM()
class Lib:
    def __init__(self, ops, tag='oplib'):
        self.path = build.so(varop.driver_source(ops), tag)
        out = subprocess.run(['nm', '-D', '--defined-only', self.path], capture_output=True, text=True).stdout
        syms = [l.split()[-1] for l in out.splitlines() if l.split()]
        dem = subprocess.run(['c++filt'], input='\n'.join(syms), capture_output=True, text=True).stdout.splitlines()
        self.lib = ctypes.CDLL(self.path); self.map = {}
        for s, d in zip(syms, dem):
            m = re.search(r'CppAD::local::var_op::(\w+)<double>\(', d)
            if m: self.map[m.group(1)] = s
    def get(self, name):
        f = getattr(self.lib, self.map[name]); f.restype = None; return f
DOM = {'log': (0.2, 3), 'log1p': (-0.7, 2), 'sqrt': (0.2, 3), 'asin': (-.8, .8), 'acos': (-.8, .8), 'atanh': (-.8, .8), 'acosh': (1.2, 3), 'tan': (-1.2, 1.2), 'powvv': (0.2, 2)}
class Case:
    pass
def layout(R, op, stride_n):
    """random placement of arguments and results"""
    c = Case(); nres = op.nres()
    first = R.randint(1, 4)          # number of rows before the results
    c.nrow = first + nres + R.randint(0, 2)
    c.iz = first + nres - 1
    c.ix = R.randrange(first); c.iy = c.ix if R.random() < 0.3 else R.randrange(first)
    c.par = [R.choice([0.0, 1.0, -1.5, R.uniform(-2, 2)]) for _ in range(4)]
    c.ip = R.randrange(4)
    if op.sig == 'erf': c.par = [0.0, 2 / math.sqrt(math.pi), 0., 0.]; c.arg = [c.ix, 0, 1]; c.ip = 0
    elif op.args == 'v': c.arg = [c.ix]
    elif op.args == 'vv': c.arg = [c.ix, c.iy]
    elif op.args == 'pv': c.arg = [c.ip, c.iy]
    else: c.arg = [c.ix, c.ip]
    if op.enum in ('divvp',) and abs(c.par[c.ip]) < .1: c.par[c.ip] = 1.25
    if op.enum == 'powpv': c.par[c.ip] = R.uniform(0.2, 2)
    if op.enum == 'powvp': c.par[c.ip] = R.choice([0.0, 1.0, 2.0, 3.0, -1.0, 0.5, R.uniform(-2, 2)])
    c.rows = {'x': c.ix, 'y': c.iy}
    for k in range(nres): c.rows['z%d' % k] = c.iz - k
    return c
def x0(R, op):
    if op.enum in DOM: return R.uniform(*DOM[op.enum])
    if op.enum == 'powvp': return R.uniform(0.3, 2)
    if op.enum in ('divvv', 'divpv'): return R.choice([-1, 1]) * R.uniform(0.3, 2)
    if op.enum == 'abs' or op.enum == 'sign': return R.choice([R.uniform(.1, 2), -R.uniform(.1, 2)])
    return R.choice([0.0, 1.0, R.uniform(-2, 2), R.uniform(-2, 2)])
def relation(op, c, T, eqn, j):
    """T(row, k); returns (value, magnitude)"""
    def V(r): return c.par[c.ip] if r == 'p' else c.par[1] if r == 'q' else T(r, 0)
    tot = 0.0; mag = 0.0
    for t in eqn:
        cf = t[1](NM, V)
        if t[0] == 'lin': v = [T(t[2], j)]
        elif t[0] == 'd': v = [j * T(t[2], j)]
        elif t[0] == 'dmul': v = [k * T(t[3], k) * T(t[2], j - k) for k in range(1, j + 1)]
        else: v = [T(t[2], k) * T(t[3], j - k) for k in range(0, j + 1)]
        tot += cf * sum(v); mag += abs(cf) * sum(abs(x) for x in v)
    return tot, mag
def ok(v, m): return not (v == v) or abs(v) <= 1e-7 * (m + 1e-3)
def call_args(op, c, extra, enum, after=()):
    a = []
    if op.sig == 'erf': a.append(ctypes.c_int(enum['ErfOp' if op.enum == 'erf' else 'ErfcOp']))
    a += [ctypes.c_size_t(v) for v in extra]
    a += [ctypes.c_size_t(c.iz), (addr_t * len(c.arg))(*c.arg)]
    if op.sig in ('binary', 'erf'): a.append((ctypes.c_double * len(c.par))(*c.par))
    return a + list(after)
def forward(lib, op, mode, R, enum, big):
    c = layout(R, op, None)
    K = R.randint(0, 5) if not big else R.randint(5, 26)
    r = R.randint(1, 4)
    cap = K + 1 + R.randint(0, 2)
    multi = mode == 'dir'
    stride = (cap - 1) * r + 1 if multi else cap
    T = (ctypes.c_double * (c.nrow * stride))(*[float('nan')] * (c.nrow * stride))
    zr = set(c.rows[z] for z in c.rows if z[0] == 'z')
    for i in range(c.nrow):
        for k in range(stride):
            T[i * stride + k] = 777.25 + i * stride + k if (k >= (K * r + 1 if multi else K + 1) or i in zr) else x0(R, op) if k == 0 else R.choice([0.0, R.uniform(-1, 1), R.uniform(-1, 1)]) * (0.5 ** (k // (r if multi else 1)) if big else 1)
    V0 = lambda row: T[c.rows[row] * stride]
    before = list(T)
    cs = [ctypes.c_size_t(cap), T]
    wrote = set()
    if mode == '0' or multi:
        lib.get(op.name + '_forward_0')(*call_args(op, c, [], enum, [ctypes.c_size_t(stride), T]))
        for z in zr: wrote.add(z * stride)
    if multi:
        for q in range(1, K + 1): lib.get(op.name + '_forward_dir')(*call_args(op, c, [q, r], enum, [ctypes.c_size_t(cap), T]))
        for z in zr: wrote |= set(range(z * stride, z * stride + K * r + 1))
    elif mode == 'any':
        p = 0
        while p <= K:
            q = R.randint(p, K)
            lib.get(op.name + '_forward_any')(*call_args(op, c, [p, q], enum, [ctypes.c_size_t(cap), T]))
            p = q + 1
        for z in zr: wrote |= set(range(z * stride, z * stride + K + 1))
    desc = dict(op=op.enum, mode=mode, i_z=c.iz, arg=c.arg, parameter=c.par, cap_order=cap, orders=K, r=r if multi else None, taylor_in=before)
    for i in range(len(before)):
        if i not in wrote and T[i] != before[i]: return dict(desc, what='cell %d outside the frame changed from %r to %r' % (i, before[i], T[i]))
    for ell in range(r if multi else 1):
        def rd(row, k):
            b = c.rows[row] * stride
            return T[b] if k == 0 else T[b + (k - 1) * r + 1 + ell] if multi else T[b + k]
        for row, zero, eqn in op.rows:
            def V(rw): return c.par[c.ip] if rw == 'p' else c.par[1] if rw == 'q' else rd(rw, 0)
            try: w = zero(NM, V)
            except (ValueError, ZeroDivisionError, OverflowError): return None
            if not ok(rd(row, 0) - w, abs(w)): return dict(desc, what='order 0 of %s is %r, required %r' % (row, rd(row, 0), w))
            for j in range(1, (0 if mode == '0' else K) + 1):
                v, m = relation(op, c, rd, eqn, j)
                if not ok(v, m): return dict(desc, what='relation of %s at order %d direction %d has residual %r (magnitude %r)' % (row, j, ell, v, m))
    return None
def linrel(op, c, T, D, row, eqn, j, skip):
    """linearised relation at order j with D(row,j) of `row` left out -> (rest, coefficient)"""
    def V(r): return c.par[c.ip] if r == 'p' else c.par[1] if r == 'q' else T(r, 0)
    rest = 0.0; A = 0.0
    for t in eqn:
        cf = t[1](NM, V); k0 = t[0]
        if k0 in ('lin', 'd'):
            w = cf * (1 if k0 == 'lin' or j == 0 else j)
            if t[2] == row: A += w
            else: rest += w * D(t[2], j)
        elif k0 == 'dmul':
            a, b = t[2], t[3]
            if j == 0:
                if b == row: A += cf * T(a, 0)
                else: rest += cf * T(a, 0) * D(b, 0)
            else:
                for k in range(1, j + 1):
                    if b == row and k == j: A += cf * k * T(a, 0)
                    else: rest += cf * k * D(b, k) * T(a, j - k)
                    rest += cf * k * T(b, k) * D(a, j - k)
        else:
            a, b = t[2], t[3]
            for k in range(0, j + 1):
                for (u, ku, w, kw) in ((a, k, b, j - k), (b, j - k, a, k)):
                    if u == row and ku == j: A += cf * T(w, kw)
                    else: rest += cf * D(u, ku) * T(w, kw)
    return rest, A
def reverse(lib, op, R, enum, big, workvec=None):
    c = layout(R, op, None)
    n = R.randint(1, 5) if not big else R.randint(5, 20)
    cap = n + R.randint(0, 2)
    T = (ctypes.c_double * (c.nrow * cap))()
    zr = [c.rows[z] for z in c.rows if z[0] == 'z']
    for i in range(c.nrow):
        for k in range(cap): T[i * cap + k] = x0(R, op) if k == 0 else R.choice([0.0, R.uniform(-1, 1), R.uniform(-1, 1)]) * (0.5 ** k if big else 1)
    lib.get(op.name + '_forward_any')(*call_args(op, c, [0, cap - 1], enum, [ctypes.c_size_t(cap), T]))
    if any(not math.isfinite(v) or abs(v) > 1e6 for v in T): return None
    P = (ctypes.c_double * (c.nrow * n))()
    for i in range(c.nrow):
        for k in range(n): P[i * n + k] = R.choice([0.0, R.uniform(-1, 1), R.uniform(-1, 1)])
    if R.random() < .1:
        for k in range(n): P[c.iz * n + k] = 0.0
    for z in zr:
        if z != c.iz:
            for k in range(n): P[z * n + k] = 0.0
    D = [[R.uniform(-1, 1) for k in range(n)] for i in range(c.nrow)]
    Tf = lambda row, k: T[c.rows[row] * cap + k]
    Df = lambda row, k: D[c.rows[row]][k]
    order = list(reversed([r[0] for r in op.rows]))
    # powvv: z2, z1, z0; others: auxiliary rows may depend on the primary one at the same order
    def dep(row):
        s = set()
        for t in op.row(row)[2]:
            for nme in t[2:]:
                if nme != row and nme[0] == 'z': s.add((nme, t[0]))
        return s
    seq = []; left = list(order)
    while left:
        for row in left:
            same = {nme for nme, k in dep(row) if nme in left}
            hard = {nme for nme in same if any(t[0] in ('lin', 'd') and t[2] == nme or t[0] == 'mul' and nme in t[2:] or t[0] == 'dmul' and t[3] == nme for t in op.row(row)[2])}
            if not hard: break
        left.remove(row); seq.append(row)
    for j in range(n):
        for row in seq:
            rest, A = linrel(op, c, Tf, Df, row, op.row(row)[2], j, None)
            if abs(A) < 1e-3: return None
            D[c.rows[row]][j] = -rest / A
    before = list(P); Tb = list(T)
    extra = []
    args = call_args(op, c, [], enum, [ctypes.c_size_t(cap), T, ctypes.c_size_t(n), P])
    if op.special == 'powvp':
        w = (ctypes.c_size_t * 3)(0, 0, 0); buf = (ctypes.c_double * (n + 2))()
        w[0] = n + 2; w[1] = R.randint(0, n + 2); w[2] = ctypes.addressof(buf); args.append(ctypes.byref(w))
    lib.get(op.name + '_reverse')(*args)
    s0 = sum(before[i * n + k] * D[i][k] for i in range(c.nrow) for k in range(n))
    s1 = sum(P[i * n + k] * D[i][k] for i in range(c.nrow) if i not in zr for k in range(n))
    mag = sum(abs(before[i * n + k] * D[i][k]) for i in range(c.nrow) for k in range(n)) + sum(abs(P[i * n + k] * D[i][k]) for i in range(c.nrow) for k in range(n))
    desc = dict(op=op.enum, mode='reverse', i_z=c.iz, arg=c.arg, parameter=c.par, cap_order=cap, n_order=n, taylor=Tb, partial_in=before)
    if any(T[i] != Tb[i] for i in range(len(Tb))): return dict(desc, what='taylor coefficients changed')
    args_rows = set(c.rows[a] for a in ('x', 'y') if (a == 'x' and 'v' == op.args[0]) or (a == 'y' and len(op.args) > 1 and op.args[1] == 'v'))
    for i in range(c.nrow):
        if i in zr or i in args_rows: continue
        for k in range(n):
            if P[i * n + k] != before[i * n + k]: return dict(desc, what='partial of row %d order %d, which is not an argument, changed' % (i, k))
    if not ok(s0 - s1, mag): return dict(desc, what='inner product of partials and tangents changed from %r to %r' % (s0, s1), tangent=D)
    return None
def search(lib, ops, mode, seed, count, enum):
    """first failing input of every operator"""
    bad = {}; n = 0
    for o in ops:
        R = random.Random('%s/%s/%s' % (seed, o.enum, mode))
        for i in range(count):
            big = i % 8 == 7
            try: d = reverse(lib, o, R, enum, big) if mode == 'reverse' else forward(lib, o, mode, R, enum, big)
            except (ValueError, ZeroDivisionError, OverflowError): continue
            n += 1
            if d: bad[o.enum] = d; break
    return bad, n
def _child(lib, ops, mode, seed, count, enum, q):
    q.put(search(lib, ops, mode, seed, count, enum)); q.close(); q.join_thread()
def safe_search(lib, ops, mode, seed, count, enum, limit=300):
    """search in child processes, so that a memory error of the code under test cannot end the check"""
    import multiprocessing, queue
    cx = multiprocessing.get_context('fork'); bad = {}; n = 0
    groups = [ops[i::8] for i in range(8) if ops[i::8]]; jobs = []
    for g in groups:
        q = cx.Queue(); p = cx.Process(target=_child, args=(lib, g, mode, seed, count, enum, q)); p.start(); jobs.append((g, p, q))
    for g, p, q in jobs:
        t = limit; got = None
        while t > 0 and got is None:
            try: got = q.get(timeout=1)
            except queue.Empty:
                t -= 1
                if not p.is_alive():
                    try: got = q.get(timeout=1)
                    except queue.Empty: break
        if got is None:
            if p.is_alive(): p.kill()
            elif p.exitcode and p.exitcode < 0: 
                for o in g: bad.setdefault(o.enum, {'op': o.enum, 'mode': mode, 'what': 'the process was ended by signal %d while replaying operators %s' % (-p.exitcode, [x.enum for x in g])}); break
        else: bad.update(got[0]); n += got[1]
        p.join(5)
    return bad, n
if __name__ == '__main__':
    ops = opspec.OPS
    lib = Lib(ops); en = varop.OpCheck(None, ops[0]).enum_code()
    import time
    for m in ('any', 'dir', '0', 'reverse'):
        t = time.time(); b, n = search(lib, ops, m, 1, int(sys.argv[1]), en)
        print(m, n, '%.1f' % (time.time() - t), {k: v['what'] for k, v in b.items()})
