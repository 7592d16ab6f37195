import atomic, callback
def run(ctx):
    exes = [ctx.binary(s + '.cpp', s + '_atomic', extra=['-DPROG_ATOMIC', '-fno-access-control']) for s in ('fwdrev', 'replay', 'sparsity')]; skip = ctx.binary('atomskip.cpp', 'atomskip', extra=['-fno-access-control'])
    ctx.assumptions += ['floating point arithmetic is exact real arithmetic', 'machine integers behave as mathematical integers',
        'the recording of a call is valid: the operator of the call, one operator for each argument, one for each result, the operator of the call',
        'the iterators of the sequence return the operators, arguments and results in order', 'arguments of a call are recorded before it (so its new coefficients are not coefficients of its arguments)',
        'the user defined callbacks do what they are documented to do (replay: polynomial functions in every interface)', 'instantiated with Base = double; functions with Base = AD<double> and the recording of calls are replayed, not proved']
    ctx.trusted += ['clang++-18 -O0 and the opt-18 passes', 'engine/symex.py, engine/atomic.py (rule for loops: one arbitrary iteration, rows by affine index), z3']
    atomic.add(ctx); callback.add(ctx); ctx.prove(); k = 10 if ctx.thorough() else 1
    ctx.run_native(skip, 'skip', 40000000, 8 * k)
    for exe, modes in zip(exes, ('forward reverse dir', 'record dynamic compare optimize', 'pattern values')):
        for m in modes.split(): ctx.run_native(exe, m, 40000000, 8 * k)
    return ctx.finish()
