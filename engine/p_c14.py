import alloc
def run(ctx):
    exe = ctx.binary('container.cpp', 'container', extra=['-fno-access-control'])
    M = ctx.module_of(alloc.load, 'alloc')
    ctx.assumptions += ['size computations and byte counts do not overflow', 'one thread at a time works on the record of a thread', 'requests do not exceed the largest capacity of the table',
        'code compiled with NDEBUG: the list of blocks in use that debug builds keep is replayed only']
    ctx.trusted += ['operator new returns a block of at least the requested bytes, aligned for every scalar type and disjoint from every other block; operator delete', 'clang++-18 -O0 and the opt-18 passes', 'engine/symex.py, engine/fn.py, z3']
    if M is not None:
        ctx.task('capacity table', alloc.run_table, M)
        for op in alloc.OPS: ctx.task('thread_alloc ' + op, alloc.run, M, op)
    ctx.prove()
    ctx.run_native(exe, 'alloc', 40000000, 500 if ctx.thorough() else 20)
    return ctx.finish()
