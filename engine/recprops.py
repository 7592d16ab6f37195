"""Shared by C04 and C12: contracts of the recording operations on AD<double>."""
import record
ASSUME = ['floating point arithmetic is exact real arithmetic; the operand values are not nan or infinite',
          'pow(0, y) with a constant zero base is used for positive y only',
          'machine integers behave as mathematical integers',
          'operands satisfy the AD invariant: a constant has tape id zero; an object whose tape id equals that of the active tape is a dynamic parameter or a variable of that tape (this is the postcondition of every operation)',
          'functions are instantiated with Base = double']
TRUST = ['clang++-18 -O0 and the opt-18 passes sroa, early-cse, simplifycfg, inlining', 'engine/symex.py, engine/normal.py, z3',
         'thread_alloc tape table: AD<Base>::tape_ptr returns the one active tape of the thread or null']
def _run(M, kind, fn, a): return getattr(record.Rec(M), kind)(fn, *a)
def add(ctx, which, replay=None):
    try: M = ctx.module_of(record.load, 'record')
    except Exception: raise
    ctx.assumptions += ASSUME; ctx.trusted += TRUST
    if M is None: return
    if which == 'arith':
        for fn, spec, kinds, alias in record.tasks():
            ctx.task('recording of %s%s' % (fn[2:], '' if not alias else ' (%s)' % alias), _run, M, 'check', fn, (spec, kinds, alias), replay=replay)
    else:
        for kind, fn, a in record.cond_tasks(): ctx.task('recording of ' + fn[2:], _run, M, kind, fn, a, replay=replay)
