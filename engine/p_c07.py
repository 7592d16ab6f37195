import setvec
def run(ctx):
    exe = ctx.binary('container.cpp', 'container', extra=['-fno-access-control'])
    M = ctx.module_of(setvec.load, 'setvec')
    ctx.assumptions += ['size computations do not overflow', 'allocator by its contract (C14)', 'two sets that are combined belong to objects with the same end',
        'size_setvec (sorted shared lists) and the iterators are replayed against std::set (bounded), not proved; svec_setvec is not used by the library']
    ctx.trusted += ['clang++-18 -O0 and the opt-18 passes sroa, early-cse, simplifycfg, inlining', 'engine/symex.py, engine/fn.py, engine/normal.py, z3 (bit vectors for machine words)']
    if M is not None:
        for t in setvec.tasks(): ctx.task('pack_setvec %s%s %s' % (t[0], ', end = 1' if t[1] else '', t[2]), setvec.run, M, *t)
    ctx.prove()
    ctx.run_native(exe, 'setvec', 40000000, 500 if ctx.thorough() else 30)
    return ctx.finish()
