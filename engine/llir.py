"""Parser for the subset of textual LLVM 18 IR that clang emits for the code under contract."""
import re, subprocess

class Ty:
    pass
TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|("(?:[^"\\]|\\.)*")|([%@](?:"[^"]*"|[-\w.$]+))|(![\w.]*(?:"[^"]*")?)|(\#\d+)|([-+]?0x[0-9A-Fa-fKLMH]+|[-+]?\d+\.\d*(?:[eE][-+]?\d+)?|[-+]?\d+)|(\.\.\.)|([A-Za-z_$][\w.$-]*)|(.))''')

def tokens(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i: break
        i = m.end()
        t = m.group(0).strip()
        if t: out.append(t)
    return out

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'txt')
    def __init__(self, op, res, ty, a, txt=''):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.txt = txt
    def __repr__(self): return self.txt

class Block:
    def __init__(self, name): self.name = name; self.phis = []; self.ins = []; self.term = None
class Func:
    def __init__(self, name, ret, params):
        self.name = name; self.ret = ret; self.params = params; self.blocks = {}; self.order = []; self.defined = False; self._loops = None
class Module:
    def __init__(self):
        self.funcs = {}; self.globals = {}; self.types = {}; self.dem = {}

ATTR_WORDS = set('''noundef nonnull signext zeroext inreg byval sret noalias nocapture readonly readnone returned dereferenceable
dereferenceable_or_null align immarg writeonly swiftself allocptr nofree range captures inalloca preallocated allocalign noext initializes dead_on_unwind writable nofpclass'''.split())

class Cur:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def acc(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def exp(self, x):
        if not self.acc(x): raise SyntaxError('expected %s got %s in %s' % (x, self.peek(), ' '.join(self.t)))

def parse_type(c):
    t = c.next()
    if re.fullmatch(r'i\d+', t): ty = ('int', int(t[1:]))
    elif t in ('double', 'float', 'x86_fp80', 'half', 'fp128'): ty = ('fp', t)
    elif t == 'ptr': ty = ('ptr',)
    elif t == 'void': ty = ('void',)
    elif t in ('label', 'metadata', 'token'): ty = (t,)
    elif t == '[':
        n = int(c.next()); c.exp('x'); e = parse_type(c); c.exp(']'); ty = ('arr', n, e)
    elif t == '{':
        fs = []
        while not c.acc('}'):
            fs.append(parse_type(c)); c.acc(',')
        ty = ('struct', tuple(fs), False)
    elif t == '<':
        if c.peek() == '{':
            c.next(); fs = []
            while not c.acc('}'):
                fs.append(parse_type(c)); c.acc(',')
            c.exp('>'); ty = ('struct', tuple(fs), True)
        else:
            n = int(c.next()); c.exp('x'); e = parse_type(c); c.exp('>'); ty = ('vec', n, e)
    elif t.startswith('%'): ty = ('named', t)
    else: raise SyntaxError('type? %s in %s' % (t, ' '.join(c.t)))
    while c.peek() == '(':
        # function type
        c.next(); ps = []; va = False
        while not c.acc(')'):
            if c.acc('...'): va = True
            else: ps.append(parse_type(c))
            c.acc(',')
        ty = ('func', ty, tuple(ps), va)
    while c.peek() == '*': c.next(); ty = ('ptr',)
    if c.peek() == 'addrspace': c.next(); c.exp('('); c.next(); c.exp(')')
    return ty

def skip_attrs(c):
    while True:
        t = c.peek()
        if t is None: return
        if t in ATTR_WORDS or (t.startswith('#') and t[1:].isdigit()) or t.startswith('"'):
            c.next()
            if t.startswith('"') and c.peek() == '=': c.next(); c.next()
            if c.peek() == '(' and t in ('dereferenceable', 'dereferenceable_or_null', 'align', 'byval', 'sret', 'range', 'captures', 'inalloca', 'preallocated', 'initializes','nofpclass'):
                d = 0
                while True:
                    x = c.next()
                    if x == '(': d += 1
                    if x == ')':
                        d -= 1
                        if d == 0: break
            elif t == 'align' and c.peek() and c.peek().isdigit(): c.next()
        else: return

import struct
def parse_fp(t):
    if t.startswith('0x') or t.startswith('-0x'):
        h = t[2:]
        if h[0] in 'KLMH': return ('fpbig', t)
        return struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
    return float(t)

CEXPR = ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'add', 'sub', 'mul', 'trunc', 'zext', 'sext', 'addrspacecast', 'icmp', 'select', 'xor')
def parse_value(c, ty):
    t = c.next()
    if t[0] == '%': return ('loc', t)
    if t[0] == '@': return ('glob', t)
    if t == 'true': return ('int', 1)
    if t == 'false': return ('int', 0)
    if t == 'null': return ('null',)
    if t in ('undef', 'poison'): return ('undef',)
    if t == 'zeroinitializer': return ('zero', ty)
    if t == 'none': return ('none',)
    if t in CEXPR:
        return parse_cexpr(c, t)
    if t.startswith('c"'):
        return ('bytes', unescape(t[2:-1]))
    if t == '{' or t == '[' or t == '<':
        if t == '<' and c.peek() == '{': c.next(); close = '}'; extra = '>'
        else: close = {'{': '}', '[': ']', '<': '>'}[t]; extra = None
        vs = []
        while not c.acc(close):
            et = parse_type(c); vs.append((et, parse_value(c, et))); c.acc(',')
        if extra: c.exp(extra)
        return ('agg', vs)
    if t.startswith('!') or t == 'metadata': return ('meta', t)
    if ty[0] == 'fp': return ('fp', parse_fp(t), t)
    if re.fullmatch(r'[-+]?\d+', t): return ('int', int(t))
    if t == 'blockaddress': return ('undef',)
    raise SyntaxError('value? %s in %s' % (t, ' '.join(c.t[:60])))
def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)
def parse_cexpr(c, op):
    while c.peek() in ('inbounds', 'nuw', 'nsw', 'exact', 'nusw', 'inrange'):
        c.next()
        if c.peek() == '(' and c.peek(1).lstrip('-').isdigit():
            while not c.acc(')'): c.next()
    pred = None
    if op == 'icmp': pred = c.next()
    c.exp('(')
    if op == 'getelementptr':
        sty = parse_type(c); c.exp(',')
        vs = []
        while not c.acc(')'):
            while c.peek() == 'inrange': c.next()
            et = parse_type(c); vs.append((et, parse_value(c, et))); c.acc(',')
        return ('cexpr', op, sty, vs)
    vs = []; tgt = None
    while not c.acc(')'):
        if c.acc('to'): tgt = parse_type(c); continue
        et = parse_type(c); vs.append((et, parse_value(c, et))); c.acc(',')
    return ('cexpr', op, tgt or pred, vs)

def typed_value(c):
    ty = parse_type(c); skip_attrs(c)
    return ty, parse_value(c, ty)

FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'nneg', 'disjoint', 'samesign', 'nusw', 'tail', 'musttail', 'notail'}
def skip_flags(c):
    while c.peek() in FLAGS: c.next()

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}

def parse_instr(line):
    c = Cur(tokens(line))
    res = None
    if c.peek(1) == '=': res = c.next(); c.next()
    op = c.next()
    if op in ('tail', 'musttail', 'notail'): op = c.next()
    if op in BIN:
        skip_flags(c); ty = parse_type(c); a = parse_value(c, ty); c.exp(','); b = parse_value(c, ty)
        return Instr(op, res, ty, (a, b), line)
    if op == 'fneg':
        skip_flags(c); ty = parse_type(c); return Instr(op, res, ty, (parse_value(c, ty),), line)
    if op in ('icmp', 'fcmp'):
        skip_flags(c); pred = c.next(); ty = parse_type(c); a = parse_value(c, ty); c.exp(','); b = parse_value(c, ty)
        return Instr(op, res, ty, (pred, a, b), line)
    if op in CAST:
        skip_flags(c); ty = parse_type(c); v = parse_value(c, ty); c.exp('to'); t2 = parse_type(c)
        return Instr(op, res, t2, (ty, v), line)
    if op == 'freeze':
        ty = parse_type(c); return Instr(op, res, ty, (parse_value(c, ty),), line)
    if op == 'load':
        skip_flags(c); c.acc('atomic'); skip_flags(c); ty = parse_type(c); c.exp(','); pt, p = typed_value(c)
        return Instr(op, res, ty, (p,), line)
    if op == 'store':
        skip_flags(c); c.acc('atomic'); skip_flags(c); ty, v = typed_value(c); c.exp(','); pt, p = typed_value(c)
        return Instr(op, None, ty, (v, p), line)
    if op == 'alloca':
        skip_flags(c); ty = parse_type(c); n = ('int', 1)
        if c.acc(','):
            if c.peek() != 'align':
                nt, n = typed_value(c)
        return Instr(op, res, ty, (n,), line)
    if op == 'getelementptr':
        skip_flags(c); ty = parse_type(c); c.exp(','); vs = []
        while True:
            vs.append(typed_value(c))
            if not c.acc(','): break
            if c.peek() and c.peek().startswith('!'): break
        return Instr(op, res, ty, vs, line)
    if op == 'phi':
        skip_flags(c); ty = parse_type(c); vs = []
        while c.acc('['):
            v = parse_value(c, ty); c.exp(','); b = c.next(); c.exp(']'); c.acc(','); vs.append((v, b[1:]))
        return Instr(op, res, ty, vs, line)
    if op == 'select':
        skip_flags(c); ct, cv = typed_value(c); c.exp(','); ty, a = typed_value(c); c.exp(','); t2, b = typed_value(c)
        return Instr(op, res, ty, (cv, a, b), line)
    if op == 'br':
        if c.acc('label'): return Instr('br', None, None, (c.next()[1:],), line)
        parse_type(c); v = parse_value(c, ('int', 1)); c.exp(','); c.exp('label'); t = c.next()[1:]; c.exp(','); c.exp('label'); f = c.next()[1:]
        return Instr('condbr', None, None, (v, t, f), line)
    if op == 'switch':
        ty, v = typed_value(c); c.exp(','); c.exp('label'); d = c.next()[1:]; c.exp('['); cases = []
        while not c.acc(']'):
            t = parse_type(c); k = parse_value(c, t); c.exp(','); c.exp('label'); cases.append((k[1], c.next()[1:]))
        return Instr('switch', None, ty, (v, d, cases), line)
    if op == 'ret':
        if c.acc('void'): return Instr('ret', None, ('void',), (), line)
        ty, v = typed_value(c); return Instr('ret', None, ty, (v,), line)
    if op == 'unreachable': return Instr(op, None, None, (), line)
    if op in ('call', 'invoke'):
        skip_flags(c)
        while c.peek() in ('fastcc', 'coldcc', 'cc'): c.next()
        skip_attrs(c); ty = parse_type(c)
        if ty[0] == 'func': ty = ty[1]
        f = parse_value(c, ('ptr',)) if c.peek() != 'asm' else ('asm',)
        args = []
        if f[0] == 'asm': return Instr('call', res, ty, (f, ()), line)
        c.exp('(')
        while not c.acc(')'):
            if c.peek() == 'metadata':
                d = 0
                while not (d == 0 and c.peek() in (',', ')')):
                    x = c.next()
                    if x == '(': d += 1
                    if x == ')': d -= 1
                args.append((('metadata',), ('meta',)))
            else:
                args.append(typed_value(c))
            c.acc(',')
        if op == 'invoke':
            skip_attrs(c); 
            while c.peek() != 'to': c.next()
            c.exp('to'); c.exp('label'); n = c.next()[1:]
            return Instr('invoke', res, ty, (f, args, n), line)
        return Instr('call', res, ty, (f, args), line)
    if op == 'extractvalue':
        ty, v = typed_value(c); idx = []
        while c.acc(','):
            if c.peek().startswith('!'): break
            idx.append(int(c.next()))
        return Instr(op, res, ty, (v, idx), line)
    if op == 'insertvalue':
        ty, v = typed_value(c); c.exp(','); t2, v2 = typed_value(c); idx = []
        while c.acc(','):
            idx.append(int(c.next()))
        return Instr(op, res, ty, (v, v2, idx, t2), line)
    if op in ('atomicrmw', 'cmpxchg', 'fence', 'landingpad', 'resume', 'va_arg', 'extractelement', 'insertelement', 'shufflevector', 'indirectbr', 'callbr', 'cleanupret', 'catchret', 'catchpad', 'cleanuppad', 'catchswitch'):
        return Instr('unsupported', res, None, (op,), line)
    raise SyntaxError('instr? ' + line)

def parse_module(txt):
    M = Module()
    lines = txt.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            nm, rest = l.split(' = type ', 1)
            rest = rest.strip()
            M.types[nm] = None if rest == 'opaque' else parse_type(Cur(tokens(rest)))
        elif l.startswith('@'):
            nm = l.split(' = ', 1)[0]
            M.globals[nm] = l
        elif l.startswith('declare ') or l.startswith('define '):
            f = parse_header(l)
            if l.startswith('define '):
                f.defined = True
                i += 1
                cur = None
                body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                f.body = body
                M.funcs[f.name] = f
            elif f.name not in M.funcs:
                M.funcs[f.name] = f
        i += 1
    names = list(M.funcs)
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(n[1:].strip('"') for n in names), capture_output=True, text=True)
    for n, d in zip(names, r.stdout.split('\n')): M.dem[n] = d
    return M

def parse_header(l):
    m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l)
    name = m.group(1)
    pre = tokens(l[:m.start()])
    # return type: last type tokens before name
    c = Cur(tokens(l[m.end() - 1:]))
    c.exp('(')
    params = []
    while not c.acc(')'):
        if c.acc('...'): c.acc(','); continue
        t = parse_type(c); skip_attrs(c)
        n = None
        if c.peek() and c.peek().startswith('%'): n = c.next()
        params.append((t, n)); c.acc(',')
    # find return type by scanning
    ret = ('void',)
    for k in range(len(pre)):
        t = pre[k]
        if re.fullmatch(r'i\d+|double|float|ptr|void|x86_fp80', t) or t.startswith('%') or t in '[{<':
            if t in ('%',): continue
            if k and pre[k - 1] == '(' : continue
            try:
                ret = parse_type(Cur(pre[k:])); break
            except Exception: pass
    return Func(name, ret, params)

def materialise(f):
    """parse the body of f on first use"""
    if f.order: return f
    cur = None; i = 0
    body = f.body
    unnamed = len([p for p in f.params if p[1] is None])
    first = True
    buf = None
    for raw in body:
        l = raw
        if not l.strip(): continue
        m = re.match(r'^([-\w.$]+|"[^"]*"):', l)
        if m and not l.startswith(' '):
            cur = Block(m.group(1)); f.blocks[cur.name] = cur; f.order.append(cur.name); continue
        s = l.strip()
        if s.startswith(';') : continue
        if buf is not None:
            buf += ' ' + s
            if s.startswith(']'): s = buf; buf = None
            else: continue
        elif s.startswith('switch') and not s.rstrip().endswith(']'):
            buf = s; continue
        if cur is None:
            # unnamed entry block
            cur = Block('0' if unnamed == 0 else str(len(f.params))); f.blocks[cur.name] = cur; f.order.append(cur.name)
        s = re.sub(r', !(dbg|tbaa|llvm\.loop|prof|srcloc|noundef|range|nonnull|align|heapallocsite|noalias|alias\.scope|unpredictable) ![\w]+', '', s)
        if s.startswith('to label') or s.startswith('cleanup') or s.startswith('catch') or s.startswith('filter'):
            if s.startswith('to label') and cur.term is not None and cur.term.op == 'invoke': pass
            continue
        if re.match(r'^(%\S+ = )?invoke ', s):
            # destination is on the next line; join lazily
            buf2 = s; f_inv = True
            idx = body.index(raw); s = s + ' ' + body[idx + 1].strip()
        ins = parse_instr(s)
        if ins.op == 'phi': cur.phis.append(ins)
        elif ins.op in ('br', 'condbr', 'switch', 'ret', 'unreachable', 'invoke'): cur.term = ins
        else: cur.ins.append(ins)
    return f

# ------------------------------------------------------------------ CFG / loops
def succs(b):
    t = b.term
    if t.op == 'br': return [t.a[0]]
    if t.op == 'condbr': return [t.a[1], t.a[2]]
    if t.op == 'switch': return [t.a[1]] + [x for _, x in t.a[2]]
    if t.op == 'invoke': return [t.a[2]]
    return []
class Loop:
    def __init__(self, header, body): self.header = header; self.body = body
def loops(f):
    if f._loops is not None: return f._loops
    materialise(f)
    idx = {n: i for i, n in enumerate(f.order)}
    pred = {n: [] for n in f.order}
    for n in f.order:
        for s in succs(f.blocks[n]): pred[s].append(n)
    # dominators (simple iterative)
    dom = {n: set(f.order) for n in f.order}
    e = f.order[0]; dom[e] = {e}
    ch = True
    while ch:
        ch = False
        for n in f.order[1:]:
            ps = [dom[p] for p in pred[n]]
            d = (set.intersection(*ps) if ps else set()) | {n}
            if d != dom[n]: dom[n] = d; ch = True
    L = {}
    for n in f.order:
        for s in succs(f.blocks[n]):
            if s in dom[n]:
                body = {s, n}; st = [n] if n != s else []
                while st:
                    x = st.pop()
                    for p in pred[x]:
                        if p not in body: body.add(p); st.append(p)
                if s in L: L[s].body |= body
                else: L[s] = Loop(s, body)
    f.preds = pred
    f._loops = L
    return L

def sizeof(M, ty):
    k = ty[0]
    if k == 'int': return max(1, (ty[1] + 7) // 8) if ty[1] <= 64 else ty[1] // 8
    if k == 'fp': return {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[ty[1]]
    if k == 'ptr': return 8
    if k == 'arr': return ty[1] * sizeof(M, ty[2])
    if k == 'named': return sizeof(M, M.types[ty[1]])
    if k == 'struct':
        o = 0
        for f in ty[1]:
            if not ty[2]: a = alignof(M, f); o = (o + a - 1) // a * a
            o += sizeof(M, f)
        if not ty[2]: a = alignof(M, ty); o = (o + a - 1) // a * a
        return o
    if k == 'vec': return ty[1] * sizeof(M, ty[2])
    raise ValueError(ty)
def alignof(M, ty):
    k = ty[0]
    if k in ('int', 'fp', 'ptr', 'vec'): return min(16, sizeof(M, ty))
    if k == 'arr': return alignof(M, ty[2])
    if k == 'named': return alignof(M, M.types[ty[1]])
    if k == 'struct':
        if ty[2] or not ty[1]: return 1
        return max(alignof(M, f) for f in ty[1])
def field_off(M, ty, i):
    if ty[0] == 'named': ty = M.types[ty[1]]
    o = 0
    for j, f in enumerate(ty[1]):
        if not ty[2]: a = alignof(M, f); o = (o + a - 1) // a * a
        if j == i: return o, f
        o += sizeof(M, f)
    raise IndexError
