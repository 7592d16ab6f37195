import coloring
def run(ctx):
    exe = ctx.binary('sparsity.cpp', 'sparsity', extra=['-fno-access-control']); exc = ctx.binary('coloring.cpp', 'coloring', extra=['-fno-access-control'])
    ctx.assumptions += ['every requested entry is in the pattern', 'a vector of sets has its set-theoretic contract (verified for the bit packed sets in C07) and its iterator visits every element of a set once',
        'the counting lemma: a counter that each iteration increases by zero or one is monotone; the products j*g+l with l < g are different for different (j, l)',
        'the derivative of the sum over a group of columns (rows) is the sum of their derivatives (C01, C02), so an entry whose other columns (rows) of the group are not in the pattern is an element of it',
        'that the entries sorted by color are all visited, and color_symmetric_cppad, are replayed only', 'real arithmetic', 'integers do not overflow']
    ctx.trusted += ['clang++-18 -O0 and the opt-18 passes', 'engine/symex.py, engine/coloring.py, z3']
    coloring.add(ctx); ctx.prove()
    ctx.run_native(exe, 'vecad_subgraph_values', 1, 10, procs=1)
    ctx.run_native(exc, 'coloring', 40000000, 400 if ctx.thorough() else 20)
    ctx.run_native(exe, 'values', 40000000, 400 if ctx.thorough() else 20)
    return ctx.finish()
