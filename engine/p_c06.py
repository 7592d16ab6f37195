import sparsity
def run(ctx):
    exe = ctx.binary('sparsity.cpp', 'sparsity', extra=['-fno-access-control'])
    ctx.assumptions += ['the recorded operation sequence is valid: each variable argument is the result of an earlier operator',
        'the vector of sets has its set-theoretic contract (verified for the bit packed sets in C07) and its iterator visits every element of a set once',
        'the iterator of the sequence returns the operators, arguments and results in order', 'the table of second derivatives that are identically zero (sum, difference, product with a parameter, quotient by a parameter, abs, neg) is part of the specification',
        'atomic function operators are not under contract', 'integers do not overflow']
    ctx.trusted += ['clang++-18 -O0 and the opt-18 passes', 'engine/symex.py, engine/iter.py, engine/sparsity.py, z3']
    sparsity.add(ctx); ctx.prove()
    ctx.run_native(exe, 'vecad_subgraph', 1, 10, procs=1)
    ctx.run_native(exe, 'pattern', 40000000, 900 if ctx.thorough() else 40)
    return ctx.finish()
