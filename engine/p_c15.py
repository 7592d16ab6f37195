import vectors
def run(ctx):
    exe = ctx.binary('container.cpp', 'container', extra=['-fno-access-control'])
    M = ctx.module_of(vectors.load, 'vectors')
    ctx.assumptions += ['size computations do not overflow', 'machine integers behave as mathematical integers (machine words of packed vectors: 64 bit vectors)',
        'element type double; element types with constructors are replayed, not proved', 'allocator by its contract (C14): a new block holds at least the requested bytes and is disjoint from every block in use']
    ctx.trusted += ['clang++-18 -O0 and the opt-18 passes sroa, early-cse, simplifycfg, inlining', 'engine/symex.py, engine/fn.py, engine/normal.py, z3', 'std::swap, memcpy (semantics built in)']
    if M is not None:
        t1, t2 = vectors.tasks()
        for t in t1: ctx.task('%s %s%s' % (t[0], t[1], ' empty' if t[2] else ''), vectors.run, M, *t)
        for t in t2: ctx.task('vectorBool bits %s%s' % (t[0], ' empty' if t[1] else ''), vectors.run_bits, M, *t)
    ctx.prove()
    ctx.run_native(exe, 'vector', 40000000, 500 if ctx.thorough() else 25)
    return ctx.finish()
