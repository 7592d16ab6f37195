import sorting
def run(ctx):
    exe = ctx.binary('container.cpp', 'container', extra=['-fno-access-control'])
    M = ctx.module_of(sorting.load, 'sorting')
    ctx.assumptions += ['size computations (including nr * nc keys) do not overflow', 'machine integers behave as mathematical integers', 'allocator by its contract (C14)', 'CheckSimpleVector has no effect']
    ctx.trusted += ['std::sort by its contract: afterwards the array is the sorting permutation of the array before', 'clang++-18 -O0 and the opt-18 passes sroa, early-cse, simplifycfg, inlining', 'engine/symex.py, engine/fn.py, engine/normal.py, z3']
    if M is not None:
        ctx.task('index_sort', sorting.run_sort, M)
        for op in sorting.OPS: ctx.task('sparse_rc ' + op, sorting.run, M, op)
    ctx.prove()
    ctx.run_native(exe, 'sort', 40000000, 500 if ctx.thorough() else 20)
    return ctx.finish()
