"""Shared by C01, C02, C03: contracts of the variable operators."""
import opspec, varop, varrev, opreplay, build
def _fwd(M, o, mode): return varop.OpCheck(M, o).forward(mode)
def _rev(M, o): return varrev.RevCheck(M, o).reverse()
ASSUME = ['machine integers behave as mathematical integers (indices and sizes do not overflow)',
          'floating point arithmetic is exact real arithmetic; NaN and infinities are excluded (they are the subject of C11)',
          'azmul(x, y) equals x * y over the reals',
          'operator arguments precede results on the tape (i_x, i_y < first result), which the recorder contracts of C04 establish',
          'operator functions are instantiated with Base = double']
TRUST = ['clang++-18 -O0 and the opt-18 passes sroa, early-cse, simplifycfg, inlining (translation of the C++ source to LLVM IR)',
         'engine/symex.py verification condition generator and engine/normal.py algebra', 'z3 (side conditions)',
         'engine/opspec.py: the defining relation of each function, and uniqueness of formal power series solutions']
def add(ctx, modes):
    ops = opspec.OPS
    M = ctx.module(varop.driver_source(ops), 'varop')
    ctx.assumptions += ASSUME; ctx.trusted += TRUST
    cache = {}
    def replay_for(o, mode):
        def rp(r):
            lib = cache.get('lib') or cache.setdefault('lib', opreplay.Lib(ops))
            en = varop.OpCheck(None, o).enum_code()
            for s in range(4):
                b, n = opreplay.safe_search(lib, [o], mode, '%d/%d' % (ctx.seed, s), 5000, en)
                if b: return b[o.enum]
            return None
        return rp
    if M is not None:
        for m in modes:
            for o in ops:
                nm = '%s_%s(%s)' % (o.name, 'reverse' if m == 'reverse' else 'forward_' + m, o.enum)
                if m == 'reverse': ctx.task(nm, _rev, M, o, replay=replay_for(o, m))
                else: ctx.task(nm, _fwd, M, o, m, replay=replay_for(o, m))
    return cache
def native_ops(ctx, modes, cache, count):
    """bounded replay of the operator contracts"""
    ops = opspec.OPS
    try:
        lib = cache.get('lib') or cache.setdefault('lib', opreplay.Lib(ops))
        en = varop.OpCheck(None, ops[0]).enum_code()
    except Exception as e:
        ctx.notes.append('operator replay not built: %s' % str(e)[-500:]); return
    for m in modes:
        b, n = opreplay.safe_search(lib, ops, m, ctx.seed, count, en)
        ctx.evals += n; ctx.nontriv += n
        for k, v in b.items(): ctx.add_fail(dict(v, harness='opreplay'))
