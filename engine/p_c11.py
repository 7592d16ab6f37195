import azero
def run(ctx):
    exe = ctx.binary('azero.cpp', 'azero', extra=['-fno-access-control'])
    ctx.assumptions += ['Taylor coefficients and parameters are arbitrary values including infinity and nan; the only law used for them is that azmul of zero and any value is zero',
        'zero times a partial that is finite is zero; negative zero equals zero', 'recording of azmul: the product is an uninterpreted function of its two operands in order',
        'instantiated with Base = double; the dispatch of the reverse sweep and whole functions are replayed (bounded), not proved']
    ctx.trusted += ['clang++-18 -O0 and the opt-18 passes sroa, early-cse, simplifycfg, inlining', 'engine/symex.py, engine/azero.py, engine/normal.py, z3']
    azero.add(ctx)
    ctx.prove()
    ctx.run_native(exe, 'reverse', 40000000, 300 if ctx.thorough() else 20)
    ctx.run_native(exe, 'product', 40000000, 100 if ctx.thorough() else 10)
    return ctx.finish()
