"""C08: contracts of the coloring algorithms.

color_general: let needed(i, j) hold if (i, j) is one of the requested entries, each of which is in the pattern.  The loops before the main loop are
replaced by summaries (an arbitrary iteration is executed; the union of its set operations, the flags it sets, the elements it writes at its own
index, a counter that grows by at most one), the main loop by an invariant:
  a row below i has a color that is at most its initial color, and a color (less than the number of rows) exactly if it had one initially,
  a row from i on has its initial color;  initial colors of rows that have one increase
and one arbitrary iteration i must give row i a color such that for every row r < i with the same color:
  if (r, j) is needed, (i, j) is not in the pattern, and if (i, j) is needed, (r, j) is not in the pattern
without changing the color of other rows.  Every vector index is in range, and the search for a color that is not forbidden ends at the initial color.
"""
import re, sys, os, time
from terms import *
from symex import *
from fn import *
from iter import Iter
import build, sparsity
def driver():
    s = sparsity.driver().split('extern "C"')[0].replace('void* p_; AbsSet();', 'void* p_; size_t x_; AbsSet();')
    return s.replace('#include <cppad/cppad.hpp>', '#include <cppad/cppad.hpp>\n#include <cppad/local/color_general.hpp>\n#include <cppad/local/color_symmetric.hpp>') + '''
typedef CppAD::vector<size_t> VS;
extern "C" {
void w_general(const AbsSet& p, const VS& row, const VS& col, VS& color) { color_general_cppad<AbsSet,VS>(p, row, col, color); }
typedef CppAD::vector<double> VD; typedef ADFun<double> F; typedef sparse_rcv<VS,VD> RCV; typedef sparse_rc<VS> RC;
long K_jw_color = offsetof(sparse_jac_work, color), K_jw_order = offsetof(sparse_jac_work, order), K_hw_color = offsetof(sparse_hes_work, color), K_hw_order = offsetof(sparse_hes_work, order), K_hw_row = offsetof(sparse_hes_work, row), K_hw_col = offsetof(sparse_hes_work, col);
size_t w_jac_for(F& f, size_t g, const VD& x, RCV& s, const RC& p, const std::string& c, sparse_jac_work& w) { return f.sparse_jac_for(g, x, s, p, c, w); }
size_t w_jac_rev(F& f, const VD& x, RCV& s, const RC& p, const std::string& c, sparse_jac_work& w) { return f.sparse_jac_rev(x, s, p, c, w); }
size_t w_hes(F& f, const VD& x, const VD& w, RCV& s, const RC& p, const std::string& c, sparse_hes_work& k) { return f.sparse_hes(x, w, s, p, c, k); }
void w_symmetric(const AbsSet& p, VS& row, VS& col, VS& color) { color_symmetric_cppad<AbsSet>(p, row, col, color); }
}
'''
def load(): return build.ir(driver(), 'coloring', extra=['-fno-access-control'])
class Arrays(Iter):
    """CppAD vectors and abstract sets of sets, with loops that are summarised"""
    def __init__(self, M, label):
        Iter.__init__(self, M, label); E = self.E; self.axset = set(); self.terms = {}; self.inst = []; self.depth = 0; self.nd = 0; self.mode = 'top'; self.summ = {}
        self.st.ghost.update({'vec': {}, 'ops': (), 'it': {}, 'ver': {}, 'end': {}, 'loops': ()})
        cnt = lambda v: (lambda E, st, a, ins, d: v)
        w = lambda st, p: self.who(st, p)
        U = lambda op: (lambda E, st, a, ins, d: self.setop(st, op(st, a)))
        vt = r'CppAD::vector<(unsigned long|bool|double)>::'
        E.contracts.update({
            r'^%svector\(unsigned long\)$' % vt: lambda E, st, a, ins, d: self.newvec(st, a[0], P(a[1]), d), r'^%svector\(\)$' % vt: lambda E, st, a, ins, d: self.newvec(st, a[0], ZERO, d),
            r'^%s~vector\(\)$' % vt: lambda E, st, a, ins, d: None, r'^%sresize\(unsigned long\)$' % vt: lambda E, st, a, ins, d: self.newvec(st, a[0], P(a[1]), d),
            r'^%ssize\(\) const$' % vt: lambda E, st, a, ins, d: self.vec(st, a[0])[1], r'^%soperator\[\]\(unsigned long\)( const)?$' % vt: self.at,
            r'AbsSet::AbsSet\(\)': lambda E, st, a, ins, d: None, r'AbsSet::~AbsSet\(\)': lambda E, st, a, ins, d: None, r'AbsSet::resize\(': self.setsize,
            r'AbsSet::end\(\)': lambda E, st, a, ins, d: self.ends(st, w(st, a[0]))[1], r'AbsSet::n_set\(\)': lambda E, st, a, ins, d: self.ends(st, w(st, a[0]))[0],
            r'AbsSet::is_element\(': lambda E, st, a, ins, d: self.ismem(st, w(st, a[0]), P(a[1]), P(a[2])),
            r'AbsSet::add_element\(': U(lambda st, a: self.chk(st, ('add', w(st, a[0]), P(a[1]), P(a[2])))), r'AbsSet::post_element\(': U(lambda st, a: self.chk(st, ('add', w(st, a[0]) + '#p', P(a[1]), P(a[2])))),
            r'AbsSet::process_post\(': U(lambda st, a: ('union', w(st, a[0]), P(a[1]), ((w(st, a[0]), P(a[1])), (w(st, a[0]) + '#p', P(a[1]))))),
            r'AbsSet::const_iterator::const_iterator\(AbsSet const&, unsigned long\)': self.it_new, r'AbsSet::const_iterator::operator\*\(\)': self.it_get, r'AbsSet::const_iterator::operator\+\+\(\)': self.it_inc})
        E.loop_hook = self.loop
    def nonneg(self, x): self.fact(ge(x, 0)); return x
    def fact(self, c):
        """an axiom, which holds for all values of the loop variables in it, so also at the registered instances"""
        if c is TRUE or c in self.axset: return
        self.axset.add(c); self.pr.axioms.append(c)
        for wv in sorted(c.vars() & set(self.terms)):
            for t in list(self.terms[wv]): self.fact(subst(c, {wv: t}))
    def sub(self, c, wv, t):
        t = P(t); ts = self.terms.setdefault(wv, [])
        if t not in ts and wv not in t.vars():
            ts.append(t)
            for a in [a for a in self.pr.axioms if wv in a.vars()]: self.fact(subst(a, {wv: t}))
        return subst(c, {wv: t})
    # ------------------------------------------------------------ vectors
    def key(self, p):
        if not isinstance(p, Ptr) or p.obj is None: raise Unsupported('vector')
        return '%s+%s' % (p.obj, p.off)
    def newvec(self, st, p, n, d, base=None):
        self.nd += 1; nm = base or 'data%d' % self.nd; es = 1 if '<bool>' in d else 8
        st.mem[nm] = Obj(nm, nm, (), None, {'esize': es, 'sort': 'I'}); self.unsigned(nm); st.ghost['vec'] = dict(st.ghost['vec']); st.ghost['vec'][self.key(p)] = (nm, n); return None
    def vec(self, st, p):
        if self.key(p) not in st.ghost['vec']: raise Unsupported('vector')
        return st.ghost['vec'][self.key(p)]
    def at(self, E, st, a, ins, d):
        o, n = self.vec(st, a[0]); i = P(a[1]); self.holds(st, And(ge(i, 0), lt(i, n)), 'vector indices are in range'); return Ptr(o, i * (1 if '<bool>' in d else 8))
    # ------------------------------------------------------------ sets
    def who(self, st, p):
        if not isinstance(p, Ptr) or p.off.cval() != 0: raise Unsupported('vector of sets')
        return p.obj
    def setsize(self, E, st, a, ins, d): st.ghost['end'] = dict(st.ghost['end']); st.ghost['end'][self.who(st, a[0])] = (P(a[1]), P(a[2])); return None
    def ends(self, st, o):
        if o not in st.ghost['end']: raise Unsupported('size of a vector of sets')
        return st.ghost['end'][o]
    def chk(self, st, x):
        n, e = self.ends(st, x[1].replace('#p', '')); self.holds(st, And(ge(x[2], 0), lt(x[2], n), ge(x[3], 0), lt(x[3], e)), 'set indices and elements are in range'); return x
    def setop(self, st, x): st.ghost['ops'] = st.ghost['ops'] + (x,); return None
    def base_mem(self, st, o, k, e): return app_bool('S', '%s:%d' % (o, st.ghost['ver'].get(o, 0)), k, e)
    def ismem(self, st, o, k, e):
        if any(x[1] == o for x in self.flat(st.ghost['ops'])): raise Unsupported('a set is read where it changes')
        return self.base_mem(st, o, k, e)
    def flat(self, ops):
        for x in ops:
            if x[0] == 'each': yield from self.flat(x[3])
            else: yield x
    def lower(self, st, ops, o, k, e, base=None):
        base = base or (lambda o, k, e: self.base_mem(st, o, k, e))
        if not ops: return base(o, k, e)
        x = ops[-1]; r = ops[:-1]; rec = lambda o, k, e: self.lower(st, r, o, k, e, base)
        if x[0] == 'each':
            f = And(x[2], self.lower(st, x[3], o, k, e, rec)); return Or(rec(o, k, e), *[self.sub(f, list(x[1].vars())[0], c) for c in self.inst])
        if x[1] != o: return rec(o, k, e)
        hit = eq(P(k), x[2])
        return Or(rec(o, k, e), And(hit, eq(P(e), x[3]))) if x[0] == 'add' else Or(rec(o, k, e), And(hit, Or(*[rec(so, sk, e) for so, sk in x[3]])))
    def freeze(self, st):
        ops = st.ghost['ops']; os_ = sorted({x[1] for x in self.flat(ops)})
        if not ops: return st
        new = dict(st.ghost['ver']); fs = []
        for o in os_: new[o] = new.get(o, 0) + 1
        s2 = st.fork(); s2.ghost['ver'] = new; s2.ghost['ops'] = ()
        for o in os_:
            for k, e in self.pairs: fs.append(Or(Not(self.lower(st, ops, o, k, e)), self.base_mem(s2, o, k, e)))
        s2.pc = s2.pc + tuple(f for f in fs if f is not TRUE); return s2
    def it_new(self, E, st, a, ins, d):
        st.ghost['it'] = dict(st.ghost['it']); st.ghost['it'][a[0]] = (self.who(st, a[1]), P(a[2]), 'first', self.nonneg(P(fresh('first', 'I')))); n, e = self.ends(st, self.who(st, a[1]))
        self.holds(st, And(ge(P(a[2]), 0), lt(P(a[2]), n)), 'set indices are in range'); return None
    def it_get(self, E, st, a, ins, d):
        if a[0] not in st.ghost['it']: raise Unsupported('iterator')
        return st.ghost['it'][a[0]][3]
    def it_inc(self, E, st, a, ins, d):
        o, k, pos, v = st.ghost['it'][a[0]]
        if pos != 'cur': raise Unsupported('increment of an iterator outside of a loop')
        st.ghost['it'] = dict(st.ghost['it']); st.ghost['it'][a[0]] = (o, k, 'next', self.nonneg(P(fresh('next', 'I')))); return a[0]
    # ------------------------------------------------------------ loops
    def loop(self, E, st, env, f, L, prev):
        if self.depth == 0:
            r = self.main(E, st, env, f, L, prev)
            if r is not None: return r
        self.depth += 1
        try: r = self.each(E, st, env, f, L, prev)
        finally: self.depth -= 1
        return [(self.freeze(x[0]),) + tuple(x[1:]) for x in r] if self.depth == 0 else r
    def main(self, E, st, env, f, L, prev): return None
    def truth(self, st, v): return sparsity.Sweep.truth(self, st, v)
    def each(self, E, st, env, f, L, prev):
        calls = [i for b in L.body for i in f.blocks[b].ins if i.op == 'call' and i.a[0][0] == 'glob']
        H, init = E.loop_entry(st, env, f, L, prev); w = self.nonneg(P(fresh('w', 'I'))); ops0 = st.ghost['ops']; e1 = dict(env); roles = {}; s1 = st.fork(); s1.ghost['ops'] = (); cnts = {}; lo = None; p = None
        its = [p for p, x in st.ghost['it'].items() if x[2] == 'first' and x[3] in [v for v in init.values() if not isinstance(v, Ptr)]]
        if len(its) == 1:
            p = its[0]; o, k, _, t = st.ghost['it'][p]; s1.ghost['it'] = dict(s1.ghost['it']); s1.ghost['it'][p] = (o, k, 'cur', w)
            s1 = s1.fork(lt(w, self.ends(st, o)[1]), self.ismem(st, o, k, w))
        elif its: raise Unsupported('iterators of a loop')
        # phis: the element, the index (from a constant in steps of one), counters that grow by at most one, values that are not carried
        todo = list(H.phis)
        def steps(roles):
            e = dict(e1)
            for ph in H.phis:
                r = roles.get(ph.res); v = init[ph.res]
                if r in ('el', 'i'): e[ph.res] = w
                elif r == 'cnt': e[ph.res] = cnts[ph.res]
                elif r == 'any': e[ph.res] = cnts[ph.res]
                else: e[ph.res] = v
            return e
        for ph in H.phis:
            v = init[ph.res]
            if p is not None and isinstance(v, Poly) and v == t: roles[ph.res] = 'el'
            elif ph.ty[0] == 'int' and ph.ty[1] > 1 and p is None and 'i' not in roles.values(): roles[ph.res] = 'i?'
            elif ph.ty[0] == 'int' and ph.ty[1] > 1: roles[ph.res] = 'any?'
            else: raise Unsupported('loop variable')
        # which of the integer phis is the index: the one that the back edges increase by one on every path
        ints = [ph for ph in H.phis if ph.ty[0] == 'int' and ph.ty[1] > 1 and roles[ph.res] != 'el']
        for ph in ints: cnts[ph.res] = self.nonneg(P(fresh('phi', 'I')))
        e = dict(e1); s = s1.fork()
        for ph in H.phis: e[ph.res] = w if roles[ph.res] == 'el' else cnts[ph.res]
        nlog = len(self.log)
        nx = {ph.res: set() for ph in ints}
        def step(ph):
            vs = {v for v, pb in ph.a if pb in L.body}
            if vs == {('loc', ph.res)}: return cnts[ph.res]
            ds = [i for b in L.body for i in f.blocks[b].ins if ('loc', i.res) in vs and i.op == 'add' and ('loc', ph.res) in i.a and ('int', 1) in i.a]
            return cnts[ph.res] + 1 if len(ds) == len(vs) else None
        syn = {ph.res: step(ph) for ph in ints}
        if None not in syn.values() or not self.want_cnt:
            for ph in ints: nx[ph.res].add(syn[ph.res] if syn[ph.res] is not None else ZERO)
        elif ints:
            self.quiet += 1
            try: outs = [x for x in E.run(s, e, f, L.header, prev, L.body, skip_loop=L.header) if self.pr.feasible(x.st.pc)]
            finally: self.quiet -= 1; del self.log[nlog:]
            for x in outs:
                if x.kind == 'edge' and x.data[1] == L.header:
                    for ph in ints:
                        v = [E.coerce(E.const(v, ph.ty, x.st, x.env), ph.ty) for v, pb in ph.a if pb == x.data[0]][0]; nx[ph.res].add(v)
        for ph in ints:
            c = cnts[ph.res]
            if nx[ph.res] == {c}: roles[ph.res] = 'same'
            elif p is None and nx[ph.res] == {c + 1} and 'i' not in roles.values(): roles[ph.res] = 'i'; lo = P(init[ph.res])
            elif nx[ph.res] <= {c, c + 1}: roles[ph.res] = 'cnt'
            else: roles[ph.res] = 'any'
        if p is None and 'i' not in roles.values(): raise Unsupported('counted loop')
        if p is None: s1 = s1.fork(ge(w, lo))
        lid = 'loop%d' % len(self.summ); self.summ[lid] = None; wv = list(w.vars())[0]
        for ph in H.phis:
            r = roles[ph.res]
            if r == 'cnt':
                if p is not None: roles[ph.res] = 'any'; e1[ph.res] = cnts[ph.res]; continue
                c0 = P(init[ph.res]); c = app('cnt_%s_%s' % (lid, ph.res), [w], 'I'); cnts[ph.res] = c; e1[ph.res] = c
                self.cfact(c, c0, lo, w)
            elif r in ('el', 'i'): e1[ph.res] = w
            elif r == 'same': e1[ph.res] = init[ph.res]
            else: e1[ph.res] = cnts[ph.res]
        ext = [(ph.res, e1[ph.res]) for ph in H.phis if roles[ph.res] == 'any']
        if ext and self.caps:
            s0 = self.houdini(st, s1, e1, f, L, prev, H, init, ext); exitfacts = [c for c in s0.pc if c not in s1.pc]; s1 = s0
        else: exitfacts = []
        # an upper bound of a search
        bound = None
        if p is None:
            for T in self.bounds(st):
                if T.cval() is not None or not self.pr.prove(st.pc, le(lo, T)): continue
                nlog = len(self.log); self.quiet += 1
                try: outs = [x for x in E.run(s1.fork(le(w, T)), dict(e1), f, L.header, prev, L.body, skip_loop=L.header) if x.kind == 'edge' and x.data[1] == L.header and self.pr.feasible(x.st.pc)]
                finally: self.quiet -= 1; del self.log[nlog:]
                if all(self.pr.prove(x.st.pc, le(w + 1, T)) for x in outs): bound = T; s1 = s1.fork(le(w, T)); break
        while True: # scalars in memory that the loop changes are arbitrary
            mem0 = dict(s1.mem)
            outs = [x for x in E.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header) if self.pr.feasible(x.st.pc)]
            new = {n for x in outs for n, ob in x.st.mem.items() if n in mem0 and 'esize' not in ob.meta and not mem0[n].base.startswith('any:') and (ob.upds != mem0[n].upds or ob.base != mem0[n].base)}
            if not new: break
            s1 = s1.fork(); self.arbitrary(s1, new)
        scal = {n for n in s1.mem if s1.mem[n].base.startswith('any:') and n in st.mem and s1.mem[n] is not st.mem[n]}
        each = []; writes = []; nxt = {}
        for x in outs:
            new = x.st.ghost['ops']; back = x.kind == 'edge' and x.data[1] == L.header; guard = And(*[c for c in x.st.pc if c not in st.pc])
            ch = {n: ob for n, ob in x.st.mem.items() if n in mem0 and 'esize' in ob.meta and (ob.upds != mem0[n].upds or ob.base != mem0[n].base)}
            if not back:
                if new or ch: raise Unsupported('a loop is left inside its body')
                if x.kind == 'ret' or x.data[0] != L.header: raise Unsupported('a loop is left early')
                continue
            for ph in H.phis:
                if roles[ph.res] != 'cnt': continue
                v = [E.coerce(E.const(v, ph.ty, x.st, x.env), ph.ty) for v, pb in ph.a if pb == x.data[0]][0]; nxt.setdefault(ph.res, []).append((guard, P(v)))
            if p is not None:
                if x.st.ghost['it'][p][2] != 'next': raise Unsupported('loop over a set does not advance')
                for ph in H.phis:
                    v = [E.coerce(E.const(v, ph.ty, x.st, x.env), ph.ty) for v, pb in ph.a if pb == x.data[0]][0]
                    if roles[ph.res] == 'el' and v != x.st.ghost['it'][p][3]: raise Unsupported('loop over a set')
                if any(y[1] == o for y in self.flat(new)): raise Unsupported('the set that is iterated changes')
            if new: each.append(('each', w, guard, new))
            writes.append((guard, x.st, ch))
        for ph in H.phis:
            if roles[ph.res] == 'cnt': self.summ[(lid, ph.res)] = nxt[ph.res]; self.counters.append((cnts[ph.res], wv, nxt[ph.res], lo, P(init[ph.res])))
        s2 = st.fork(); s2.ghost['ops'] = ops0 + tuple(each); s2.ghost['it'] = dict(st.ghost['it'])
        if p is not None: s2.ghost['it'][p] = (o, k, 'end', self.ends(st, o)[1])
        self.arbitrary(s2, scal)
        for n in sorted({n for g, s, ch in writes for n in ch}): s2.mem[n] = self.summary(lid, n, st.mem[n], w, wv, lo, p, [(g, s, ch.get(n)) for g, s, ch in writes])
        e2 = dict(env); y = self.nonneg(P(fresh('x', 'I')))
        for ph in H.phis:
            r = roles[ph.res]
            e2[ph.res] = self.ends(st, o)[1] if r == 'el' else y if r == 'i' else init[ph.res] if r == 'same' else e1[ph.res] if r == 'any' and exitfacts else self.nonneg(P(fresh('any', 'I')))
        s2 = s2.fork(*exitfacts)
        if p is None: s2 = s2.fork(ge(y, lo), *([le(y, bound)] if bound is not None else []))
        out = []
        for x in E.run(s2, e2, f, L.header, prev, {L.header}, skip_loop=L.header):
            if not self.pr.feasible(x.st.pc): continue
            if x.kind == 'edge' and x.data[1] in L.body:
                if p is not None: raise Unsupported('a loop over a set does not stop at its end')
                continue
            out.append((x.st, x.env, x.data, None) if x.kind == 'ret' else (x.st, x.env, x.data[0], x.data[1]))
        if not out: raise Unsupported('loop exit')
        return out
    caps = ()
    def houdini(self, st, s1, e1, f, L, prev, H, init, cand):
        """bounds of loop variables that hold at entry and are preserved"""
        E = self.E; inv = [(r, c) for r, v in cand for c in [(lambda x, T=T: le(x, T)) for T in self.caps] if self.pr.prove(st.pc, c(P(init[r])))]
        while inv:
            nlog = len(self.log); self.quiet += 1; s2 = s1.fork(*[c(P(e1[r])) for r, c in inv])
            try: outs = [x for x in E.run(s2, dict(e1), f, L.header, prev, L.body, skip_loop=L.header) if self.pr.feasible(x.st.pc)]
            finally: self.quiet -= 1; del self.log[nlog:]
            bad = []
            for x in outs:
                if x.kind != 'edge' or x.data[1] != L.header: continue
                for r, c in inv:
                    ph = [ph for ph in H.phis if ph.res == r][0]; v = [E.coerce(E.const(v, ph.ty, x.st, x.env), ph.ty) for v, pb in ph.a if pb == x.data[0]][0]
                    if not self.pr.prove(x.st.pc, c(P(v))): bad.append((r, c))
            if not bad: return s2
            inv = [y for y in inv if y not in bad]
        return s1
    def arbitrary(self, st, ns):
        for n in ns: o = st.mem[n]; self.nd += 1; b = 'any:%d:%s' % (self.nd, n); st.mem[n] = Obj(o.name, b, (), o.size, o.meta); self.unsigned(b)
    quiet = 0; want_cnt = True
    def holds(self, *a, **k): return None if self.quiet else Iter.holds(self, *a, **k)
    def eq(self, *a, **k): return None if self.quiet else Iter.eq(self, *a, **k)
    def true(self, *a, **k): return None if self.quiet else Iter.true(self, *a, **k)
    counters = ()
    def bounds(self, st): return []
    def cfact(self, c, c0, lo, w): self.fact(And(ge(c, c0), Or(lt(w, lo), le(c, c0 + w - lo))))
    def cmono(self, x, y):
        """counter facts at the indices x < y"""
        for c, wv, nxt, lo, c0 in self.counters:
            cx = self.sub(c, wv, x); cy = self.sub(c, wv, y)
            for z, cz in ((x, cx), (y, cy)): self.cfact(cz, c0, lo, z)
            self.fact(And(*[Or(lt(x, lo), ge(x, y), Not(self.sub(g, wv, x)), le(self.sub(v, wv, x), cy)) for g, v in nxt]))
    def summary(self, lid, n, old, w, wv, lo, p, ws):
        """object after a loop"""
        es = old.meta['esize']; E = self.E; base = '%s:%s' % (lid, n)
        point = p is None and all(ob is None or (ob.base == old.base and len(ob.upds) >= len(old.upds) and all(u.off == w * es and u.guard is TRUE and not u.vars and u.kind == 'pt' for u in ob.upds[len(old.upds):])) for g, s, ob in ws)
        if point:
            def rd(E, s, o, off, wd, sort):
                x = exact_div(off, P(es)) if es > 1 else off
                if x is None: raise Unsupported('element offset')
                v = E.read_obj(s, old, off, wd, sort)
                for g, s1, ob in ws:
                    nv = E.read_obj(s1, ob, w * es, wd, sort) if ob is not None else v
                    if nv is UNDEF: raise Unsupported('undefined element')
                    nv = b2i(nv) if isinstance(nv, Cond) else nv; v = b2i(v) if isinstance(v, Cond) else v
                    v = ite(self.sub(g, wv, x), self.sub(nv, wv, x), v)
                return v
        elif es == 8 and old.meta.get('family'): return self.family(base, old, wv, ws)
        else:
            if es != 1: raise Unsupported('elements that a loop writes')
            vals = {u.val.cval() if isinstance(u.val, Poly) else None for g, s, ob in ws if ob is not None for u in ob.upds[len(old.upds) if ob.base == old.base else 0:]}
            vals |= {self.summ.get(ob.base) for g, s, ob in ws if ob is not None and ob.base != old.base}
            if len(vals) != 1 or None in vals: raise Unsupported('values that a loop writes')
            val = vals.pop(); self.summ[base] = val
            if val not in (0, 1): raise Unsupported('values that a loop writes')
            def tr(s, ob, off): t = self.truth(s, E.read_obj(s, ob, off, 1, 'I')); return t if val else Not(t)
            def rd(E, s, o, off, wd, sort):
                def lower(): # set before, or set by one of the instances
                    self.mode = 'lower'; return Or(tr(s, old, off), *[self.sub(And(g, tr(s1, ob, off)), wv, c) for g, s1, ob in ws if ob is not None for c in self.inst + [off]])
                def upper():
                    self.mode = 'upper'; sk = self.skolem(lid, off); return Or(tr(s, old, off), *[self.sub(And(g, tr(s1, ob, off)), wv, sk) for g, s1, ob in ws if ob is not None])
                m0 = self.mode
                try:
                    if m0 == 'lower': f = lower()
                    elif m0 == 'upper': f = upper()
                    else:
                        f = app_bool('F', base, off); key = (base, off)
                        if key not in self.seen: self.seen.add(key); self.fact(Or(Not(lower()), f)); self.fact(Or(Not(f), upper()))
                finally: self.mode = m0
                return b2i(f if val else Not(f))
        self.E.bases[base] = rd
        return Obj(old.name, base, (), old.size, old.meta)
    seen = frozenset()
    def skolem(self, lid, off): x = app('sk_' + lid, [off], 'I'); self.nonneg(x); return x
class General(Arrays):
    def __init__(self, M):
        Arrays.__init__(self, M, 'color_general_cppad'); self.seen = set(); self.counters = []
        V = lambda n: self.nonneg(P(var(n))); self.m = V('m'); self.n = V('n'); self.K_ = V('K'); self.i = V('i'); self.j = V('j'); self.r = V('r'); self.k1 = V('k1'); self.inst = [self.i, self.j, self.r, self.k1]; self.pairs = [(self.i, self.j), (self.r, self.j), (self.j, self.i), (self.j, self.r)]
        self.assume(lt(self.i, self.m), lt(self.j, self.n), lt(self.r, self.i), lt(self.k1, self.K_)); st = self.st
        for o in ('pat', 'vrow', 'vcol', 'vcolor'): self.obj(o)
        for o, b, top in (('vrow', 'row', self.m), ('vcol', 'col', self.n)):
            self.plain(b, 8, 'I', const=True)
            def rd(E, s, ob, off, w, sort, b=b, top=top): v = sel(b, off, sort, w); self.fact(And(ge(v, 0), lt(v, top))); return v
            self.E.bases[b] = rd; st.ghost['vec'][o + '+0'] = (b, self.K_)
        self.plain('color', 8, 'I'); self.unsigned('color'); st.ghost['vec']['vcolor+0'] = ('color', self.m); st.ghost['end']['pat'] = (self.m, self.n); self.mains = 0; self.c0 = None
        self.row = lambda k: self.E.read_obj(st, st.mem['row'], P(k) * 8, 8, 'I'); self.col = lambda k: self.E.read_obj(st, st.mem['col'], P(k) * 8, 8, 'I')
    def newvec(self, st, p, n, d, base=None): return Arrays.newvec(self, st, p, n, d, 'color_%d' % self.nd if p.obj == 'vcolor' else None)
    def bounds(self, st): return [self.inv(st, self.i)] if self.c0 is not None else []
    def pat(self, i, j): return app_bool('S', 'pat:0', P(i), P(j))
    def inv(self, st, x):
        """color of row x at the start of iteration i"""
        v = self.nonneg(app('inv', [P(x)], 'I')); i = self.i; c0 = self.c0(x)
        self.fact(Or(lt(x, i), ge(x, self.m), eq(v, c0))); self.fact(Or(ge(x, i), ge(c0, self.m), le(v, c0))); self.fact(Or(ge(x, i), lt(c0, self.m), ge(v, self.m)))
        self.cmono(P(x), P(i)); self.c0(i); return v
    def searches(self, f, L):
        """the loop contains loops, in its body or in functions that its body calls"""
        def has(g, body, d):
            if any(h in body and h != (L.header if g is f else None) for h in llir.loops(g)): return True
            for b in body:
                for i in g.blocks[b].ins:
                    if i.op == 'call' and i.a[0][0] == 'glob' and d < 6 and i.a[0][1] in self.E.M.funcs and self.E.find_contract(i.a[0][1]) is None:
                        h = self.E.M.funcs[i.a[0][1]]; llir.materialise(h)
                        if has(h, set(h.order), d + 1): return True
            return False
        return has(f, L.body, 0)
    def main(self, E, st, env, f, L, prev):
        name, size = st.ghost['vec']['vcolor+0']; ob = st.mem[name]
        if not ob.base.startswith('loop') or not self.searches(f, L): return None
        self.mains += 1
        if self.mains > 1: raise Unsupported('more than one loop changes the colors')
        self.eq(st, size, self.m, 'there is a color for every row')
        s0 = st.fork(); self.c0 = lambda x: E.read_obj(s0, ob, P(x) * 8, 8, 'I')
        def rd(E, s, o, off, w, sort): return self.inv(s, exact_div(off, P(8)))
        self.E.bases['inv'] = rd
        H, init = E.loop_entry(st, env, f, L, prev); lo = None; e1 = dict(env); ii = None; i, j, r, m, k1 = self.i, self.j, self.r, self.m, self.k1
        # the index: an integer that starts at a constant and is below m in the body
        s1 = st.fork(); s1.mem[name] = Obj(ob.name, 'inv', (), ob.size, ob.meta); mem0 = dict(s1.mem)
        cand = [ph for ph in H.phis if ph.ty[0] == 'int' and ph.ty[1] > 1 and P(init[ph.res]).cval() is not None]
        if not cand: raise Unsupported('index of the main loop')
        for ph0 in cand:
            for ph in H.phis:
                if ph.ty[0] != 'int': raise Unsupported('variable of the main loop')
                e1[ph.res] = i if ph is ph0 else self.nonneg(P(fresh('any', 'I')))
            self.depth += 1; nlog = len(self.log)
            try: outs = [x for x in E.run(s1.fork(ge(i, P(init[ph0.res]))), e1, f, L.header, prev, L.body, skip_loop=L.header) if self.pr.feasible(x.st.pc)]
            except ObligationFailed:
                if ph0 is cand[-1]: raise
                continue
            finally: self.depth -= 1
            nx = {E.coerce(E.const(v, ph0.ty, x.st, x.env), ph0.ty) for x in outs if x.kind == 'edge' and x.data[1] == L.header for v, pb in ph0.a if pb == x.data[0]}
            if nx == {i + 1}: ii = ph0; break
            del self.log[nlog:]
        if ii is None: raise Unsupported('index of the main loop')
        self.true(P(init[ii.res]).cval() <= 1, 'the main loop starts at the first row')
        x = self.nonneg(P(var('x'))); self.assume(lt(x, m)); need = And(eq(self.row(k1), i), eq(self.col(k1), j)); needr = And(eq(self.row(k1), r), eq(self.col(k1), j))
        pre = self.pat(self.row(k1), self.col(k1)); self.fact(pre)
        # membership is a function of its arguments: the requested entry at the instances
        self.fact(Or(Not(need), self.pat(i, j))); self.fact(Or(Not(needr), self.pat(r, j)))
        for o in outs:
            if not (o.kind == 'edge' and o.data[1] == L.header):
                self.true(o.kind == 'edge' and o.data[0] == L.header, 'the main loop ends only at its test'); continue
            s = o.st; C = lambda y: E.read_obj(s, s.mem[name], P(y) * 8, 8, 'I'); C0 = lambda y: self.inv(s, P(y))
            for n, ob2 in s.mem.items():
                if n in mem0 and n != name and (ob2.upds != mem0[n].upds or ob2.base != mem0[n].base) and (mem0[n].upds or mem0[n].base != n): raise Unsupported('memory changed by the main loop')
            self.holds(s, Or(eq(x, i), eq(C(x), C0(x))), 'an iteration changes only the color of its row')
            self.holds(s, And(Or(ge(self.c0(i), m), le(C(i), self.c0(i))), Or(lt(self.c0(i), m), ge(C(i), m))), 'a row keeps having a color, that is at most its initial color')
            self.holds(s, Or(Not(need), lt(C(i), m)), 'a row with a requested entry has a color')
            self.holds(s, Or(Not(needr), Not(self.pat(i, j)), ge(C(i), m), ne(C(i), C(r))), 'rows with the same color: the row does not destroy a result of an earlier row')
            self.holds(s, Or(Not(need), Not(self.pat(r, j)), ge(C(r), m), ne(C(i), C(r))), 'rows with the same color: an earlier row does not destroy a result of the row')
        # after the loop
        e2 = dict(env); y = self.nonneg(P(fresh('x', 'I'))); out = []
        for ph in H.phis: e2[ph.res] = y if ph is ii else self.nonneg(P(fresh('any', 'I')))
        s2 = s1.fork(ge(y, P(init[ii.res])))
        for o in E.run(s2, e2, f, L.header, prev, {L.header}, skip_loop=L.header):
            if o.kind == 'ret': raise Unsupported('return in the main loop')
            if o.data[1] in L.body or not self.pr.feasible(o.st.pc): continue
            self.holds(o.st, ge(y, m), 'the main loop visits all rows'); out.append((o.st, o.env, o.data[0], o.data[1]))
        if not out: raise Unsupported('exit of the main loop')
        return out
    def run(self):
        for s, r in self.E.call(self.st.fork(), '@w_general', [Ptr('pat', 0), Ptr('vrow', 0), Ptr('vcol', 0), Ptr('vcolor', 0)]):
            if not self.mains: raise Unsupported('the main loop was not found')
            self.true(s.mem[s.ghost['vec']['vcolor+0'][0]].base == 'inv' and not s.mem[s.ghost['vec']['vcolor+0'][0]].upds, 'the colors do not change after the main loop')
        return self.done()
class Recover(Arrays):
    """the entries that sparse_jac_for, sparse_jac_rev and sparse_hes set are elements of the derivative of the sum of the columns (rows) of one color"""
    def __init__(self, M, kind):
        Arrays.__init__(self, M, {'for': 'sparse_jac_for', 'rev': 'sparse_jac_rev', 'hes': 'sparse_hes'}[kind]); self.seen = set(); self.counters = []; self.kind = kind; st = self.st; E = self.E
        V = lambda n: self.nonneg(P(var(n))); self.m = V('m'); self.n = self.m if kind == 'hes' and 0 else V('n'); self.K_ = V('K'); self.c = V('c'); self.e = V('e'); self.inst = [self.c, self.e]; self.caps = (self.K_,); self.want_cnt = False; self.assume(ge(self.n, 1), ge(self.m, 1), ge(self.K_, 1)); self.nset = 0
        self.group = self.m if kind == 'rev' else self.n
        for o in ('f', 'x', 'w', 'sub', 'pattern', 'str', 'work', 'vrow', 'vcol'): self.obj(o)
        def arr(key, b, n, top, const=True):
            self.plain(b, 8, 'I', const=const)
            def rd(E, s, ob, off, w, sort):
                v = sel(b, off, sort, w); self.fact(ge(v, 0))
                if top is not None: self.fact(lt(v, top))
                return v
            E.bases[b] = rd; st.ghost['vec'][key] = (b, n)
        K = self.K; top = (self.m, self.n) if kind != 'hes' else (self.n, self.n)
        if kind == 'hes': arr('vrow+0', 'srow', self.K_, top[0]); arr('vcol+0', 'scol', self.K_, top[1]); arr('work+%d' % K['hw_row'], 'row', self.K_, top[0]); arr('work+%d' % K['hw_col'], 'col', self.K_, top[1])
        else: arr('vrow+0', 'row', self.K_, top[0]); arr('vcol+0', 'col', self.K_, top[1])
        k = 'hw' if kind == 'hes' else 'jw'; arr('work+%d' % K[k + '_color'], 'color', self.group, None); arr('work+%d' % K[k + '_order'], 'order', self.K_, self.K_)
        for o in ('x', 'w'): self.plain('b' + o, 8, 'R', const=True)
        st.ghost['vec']['x+0'] = ('bx', self.n); st.ghost['vec']['w+0'] = ('bw', self.m); st.ghost['call'] = None; self.ncall = 0
        c = lambda v: (lambda E, st, a, ins, d: v)
        E.contracts.update({
            r'ADFun<double, double>::Domain\(': c(self.n), r'ADFun<double, double>::Range\(': c(self.m), r'sparse_rcv<.*>::nr\(': c(self.n if kind == 'hes' else self.m), r'sparse_rcv<.*>::nc\(': c(self.n), r'sparse_rcv<.*>::nnz\(': c(self.K_),
            r'sparse_rcv<.*>::row\(': c(Ptr('vrow', 0)), r'sparse_rcv<.*>::col\(': c(Ptr('vcol', 0)), r'sparse_rcv<.*>::set\(': self.set, r'ADFun<double, double>::(Forward|Reverse)<': self.sweep,
            r'^CppAD::vector<double>::operator=\(': self.assign})
    def newvec(self, st, p, n, d, base=None):
        if '<double>' not in d: return Arrays.newvec(self, st, p, n, d, base)
        self.nd += 1; nm = 'data%d' % self.nd; st.mem[nm] = Obj(nm, nm, (), None, {'esize': 8, 'sort': 'R', 'family': True}); st.ghost['vec'] = dict(st.ghost['vec']); st.ghost['vec'][self.key(p)] = (nm, n); return None
    def at(self, E, st, a, ins, d):
        if '<double>' in d: return Ptr(self.vec(st, a[0])[0], P(a[1]) * 8)
        return Arrays.at(self, E, st, a, ins, d)
    def assign(self, E, st, a, ins, d): st.ghost['vec'] = dict(st.ghost['vec']); st.ghost['vec'][self.key(a[0])] = self.vec(st, a[1]); return a[0]
    def sweep(self, E, st, a, ins, d):
        fwd = '::Forward<' in d; out, f, q = a[0], a[1], P(a[2]); grp = None; v = a[3]
        if re.search(r'Forward<.*>\(unsigned long, unsigned long, ', d): grp = P(a[3]); v = a[4]
        data, size = self.vec(st, v); self.ncall += 1; nm = 'res%d' % self.ncall; st.mem[nm] = Obj(nm, nm, (), None, {'esize': 8, 'sort': 'R', 'const': True}); st.ghost['vec'] = dict(st.ghost['vec']); st.ghost['vec'][self.key(out)] = (nm, P(var('size_' + nm)))
        if q == ZERO:
            self.true(fwd and data == 'bx', 'zero order forward is at the given point'); return None
        self.calls[nm] = (fwd, q, grp, data, size, st.fork(), st.ghost['call']); st.ghost['call'] = nm; return None
    def color(self, st, x): return self.E.read_obj(st, st.mem['color'], P(x) * 8, 8, 'I')
    def set(self, E, st, a, ins, d):
        t = P(a[1]); v = self.E.read_obj(st, st.mem[a[2].obj], a[2].off, 8, "R") if isinstance(a[2], Ptr) else P(a[2]); rd = lambda b, t: E.read_obj(st, st.mem[b], t * 8, 8, 'I')
        if v == ZERO or self.quiet: return None
        at = [ATOMS[x] for x in v.atoms()]
        if len(at) != 1 or at[0].kind != 'SEL' or v != P(at[0]): raise Unsupported('value of an entry')
        n = self.name('an entry is an element of the result of the last sweep'); res = at[0].args[0]
        if res not in self.calls: raise ObligationFailed(n, 'entry %s is %s' % (t, v))
        fwd, q, grp, data, size, s0, prev = self.calls[res]; idx = exact_div(at[0].args[1], P(8)); row, col = rd('row', t), rd('col', t); self.nset += 1
        if self.kind == 'hes':
            self.true(not fwd and q.cval() == 2 and data == 'bw' and prev is not None, 'the Hessian comes from second order reverse with the given weights', str((fwd, q, data))); self.eq(st, idx, row * 2 + 1, 'the row of the entry'); res = prev
            fwd, q, grp, data, size, s0, prev = self.calls[res]; me = col; e = None; self.true(fwd and q.cval() == 1 and grp is None, 'first order forward gives the direction')
        elif self.kind == 'rev':
            self.true(not fwd and q.cval() == 1, 'the Jacobian comes from first order reverse'); self.eq(st, idx, col, 'the column of the entry'); me = row; e = None
        else:
            self.true(fwd and q.cval() == 1, 'the Jacobian comes from first order forward'); me = col; g = self.g(s0, size)
            if grp is not None: self.eq(s0, grp, g, 'number of directions')
            else: self.holds(s0, eq(g, 1), 'number of directions')
            e = idx - row * g; self.name('the row of the entry')
            if not e.is_int() or len(e.d) != 1: raise ObligationFailed(n, 'index %s of the result, row %s' % (idx, row))
            if not self.pr.prove(st.pc, ge(e, 0)): raise Unsupported('the order of the entries decides the direction')   # the contract of the sort is not used here
            self.holds(st, And(ge(e, 0), lt(e, g)), 'the row of the entry')
        one = lambda x: self.seed(s0, st, data, x, e)
        s = st.fork(ge(self.c, 0), lt(self.c, self.group))
        self.eq(s, one(me), ONE, 'the column (row) of the entry is in the group'); o = one(self.c); same = eq(self.color(st, self.c), self.color(st, me))
        self.holds(s, And(Or(Not(same), self.iseq(s, o, 1)), Or(same, self.iseq(s, o, 0))), 'the group is all columns (rows) with the same color'); return None
    def iseq(self, s, v, c): return self.val(v, P(c))
    def val(self, v, c):
        """v == c for a value made of conditions and constants"""
        if v.cval() is not None: return TRUE if v == c else FALSE
        a = ATOMS[list(v.atoms())[0]]
        if v == P(a) and a.kind == 'ITE': return Or(And(a.args[0], self.val(a.args[1], c)), And(Not(a.args[0]), self.val(a.args[2], c)))
        return eq(v, c)
    def g(self, s0, size):
        g = exact_div(size, self.n)
        if g is None: raise Unsupported('number of directions')
        return g
    def seed(self, s0, st, data, x, e):
        s = State(st.pc, s0.mem, st.trace, dict(s0.ghost)); ob = s0.mem[data]; x = P(x)
        if e is None: return self.E.read_obj(s, ob, x * 8, 8, 'R')
        v = self.E.read_obj(s, ob, (x * self.g(s0, s0.ghost['vec_size'] if 0 else self.sizes[data]) + self.e) * 8, 8, 'R'); return subst(v, {list(self.e.vars())[0]: e})
    @property
    def sizes(self): return {v[3]: v[4] for v in self.calls.values()}
    def family(self, base, old, wv, ws):
        E = self.E
        def rd(E, s, o, off, wd, sort):
            x = off
            for g, s1, ob in ws:
                if ob is None: raise Unsupported('elements that a loop writes')
            inner = self.fam.get(ws[0][2].base); step = coeff(inner, ATOMS[wv])[0] if inner is not None and coeff(inner, ATOMS[wv]) is not None else P(8)
            if ws[0][2].base != old.base and step != P(8): # nested, the outer index is the row (column): candidates for both indices
                t = exact_div(x, P(8)); y = exact_div(t - self.e, exact_div(step, P(8))) if t is not None else None; ww = Poly({((wv, 1),): Fr(1)}); v = None
                if y is None: raise Unsupported('elements that a loop writes')
                for g, s1, ob in ws: t = E.read_obj(s1, ob, ww * step + self.e * 8, wd, sort); v = t if v is None else ite(g, t, v)
                return subst(v, {wv: y})
            if ws[0][2].base != old.base: # nested: the candidate for the outer index
                xs = self.sub(x, list(self.e.vars())[0], Poly({((wv, 1),): Fr(1)})); v = None
                for g, s1, ob in ws: t = E.read_obj(s1, ob, xs, wd, sort); v = t if v is None else ite(g, t, v)
                return subst(v, {wv: self.e})
            v = None
            for g, s1, ob in ws:
                for u in ob.upds[len(old.upds):]:
                    cc = coeff(u.off, ATOMS[wv])
                    if cc is None or u.guard is not TRUE: raise Unsupported('elements that a loop writes')
                    w = exact_div(x - cc[1], cc[0])
                    if w is None: raise Unsupported('elements that a loop writes')
                    if u is ob.upds[-1] or True: val = subst(u.val, {wv: w}); gg = subst(g, {wv: w})
                v = val if v is None else ite(gg, val, v)
            return v
        offs = {u.off for g, s1, ob in ws if ob is not None and ob.base == old.base for u in ob.upds[len(old.upds):]}
        if len(offs) == 1: self.fam[base] = offs.pop()
        E.bases[base] = rd; return Obj(old.name, base, (), old.size, old.meta)
    calls = None
    def loop(self, E, st, env, f, L, prev):
        try: return Arrays.loop(self, E, st, env, f, L, prev)
        except Unsupported as x:
            if str(x) not in ('counted loop', 'a loop is left early', 'loop variable'): raise
        return self.any(E, st, env, f, L, prev)
    def any(self, E, st, env, f, L, prev):
        """an arbitrary iteration; afterwards everything that it changes is arbitrary"""
        H, init = E.loop_entry(st, env, f, L, prev); e1 = dict(env)
        for ph in H.phis:
            if ph.ty[0] != 'int' or ph.ty[1] == 1: raise Unsupported('loop variable')
            e1[ph.res] = self.nonneg(P(fresh('any', 'I')))
        s1 = st.fork(); self.depth += 1
        try:
            s1 = self.houdini(st, s1, e1, f, L, prev, H, init, [(ph.res, e1[ph.res]) for ph in H.phis])
            while True:
                outs = [x for x in E.run(s1, e1, f, L.header, prev, L.body, skip_loop=L.header) if self.pr.feasible(x.st.pc)]
                new = {n for x in outs for n, ob in x.st.mem.items() if n in s1.mem and 'esize' not in ob.meta and not s1.mem[n].base.startswith('any:') and (ob.upds != s1.mem[n].upds or ob.base != s1.mem[n].base)}
                if not new: break
                s1 = s1.fork(); self.arbitrary(s1, new)
        finally: self.depth -= 1
        for x in outs:
            if any(n in s1.mem and 'esize' in ob.meta and (ob.upds != s1.mem[n].upds or ob.base != s1.mem[n].base) and n.startswith('data') for n, ob in x.st.mem.items()): raise Unsupported('memory changed by a loop')
        out = [(x.st, x.env, x.data[0], x.data[1]) if x.kind == 'edge' else (x.st, x.env, x.data, None) for x in outs if x.kind == 'ret' or x.data[1] != L.header]
        if not out: raise Unsupported('loop exit')
        return out
    def run(self):
        self.calls = {}; self.fam = {}; a = [Ptr('f', 0)]
        if self.kind == 'for': a.append(self.nonneg(P(var('gmax')))); self.assume(ge(P(var('gmax')), 1))
        a.append(Ptr('x', 0))
        if self.kind == 'hes': a.append(Ptr('w', 0))
        self.E.call(self.st.fork(), '@w_' + {'for': 'jac_for', 'rev': 'jac_rev', 'hes': 'hes'}[self.kind], a + [Ptr('sub', 0), Ptr('pattern', 0), Ptr('str', 0), Ptr('work', 0)])
        if not self.nset: raise Unsupported('no entry is set')
        return self.done()
def job(M, k): return (General(M) if k == 'general' else Recover(M, k)).run()
def add(ctx):
    M = ctx.module_of(load, 'coloring')
    if M is not None:
        for k in ('general', 'for', 'rev', 'hes'): ctx.task('coloring ' + k, job, M, k)
if __name__ == '__main__':
    M = load(); t0 = time.time()
    try: l = (Recover(M, sys.argv[1]) if sys.argv[1:] else General(M)).run(); print('ok', len(l), l, '%.1f s' % (time.time() - t0))
    except (ObligationFailed, Unsupported) as x: print(type(x).__name__, str(x)[-1200:], '%.1f s' % (time.time() - t0))
