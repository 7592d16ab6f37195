import dynamic
def run(ctx):
    exe = ctx.binary('replay.cpp', 'replay', extra=['-fno-access-control'])
    M = ctx.module_of(dynamic.load, 'dynamic')
    ctx.assumptions += ['floating point arithmetic is exact real arithmetic', 'machine integers behave as mathematical integers',
        'the dynamic parameter vectors satisfy the recorder contract (argument offsets are the prefix sums of the argument counts; arguments of a parameter have smaller indices)',
        'instantiated with Base = double; the atomic call operator is replayed, not proved']
    ctx.trusted += ['clang++-18 -O0 and the opt-18 passes sroa, early-cse, simplifycfg, inlining', 'engine/symex.py, engine/iterate.py, engine/normal.py, z3']
    if M is not None:
        for n in dynamic.Dyn(M).names(): ctx.task('sweep::dynamic, one iteration, ' + n, dynamic.run, M, n)
    ctx.prove()
    ctx.run_native(exe, 'dynamic', 40000000 if ctx.thorough() else 4000000, 600 if ctx.thorough() else 30)
    return ctx.finish()
