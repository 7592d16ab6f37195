import numeric
def run(ctx):
    exe = ctx.binary('container.cpp', 'container', extra=['-fno-access-control'])
    M = ctx.module_of(numeric.load, 'numeric')
    ctx.assumptions += ['exact real arithmetic', 'integers do not overflow', 'factorial by its recursion n! = n (n - 1)!, 0! = 1']
    ctx.trusted += ['clang++-18 -O0 and the opt-18 passes', 'engine/symex.py, engine/fn.py, engine/normal.py, z3']
    if M is not None:
        ctx.task('Poly, value', numeric.run_poly0, M); ctx.task('Poly, derivative', numeric.run_polyk, M); ctx.task('pow(Type, int)', numeric.run_pow, M)
        for n in (1, 2): ctx.task('bounded LuFactor n=%d' % n, numeric.run_factor, M, n)
        for t in numeric.tasks(): ctx.task('bounded LuInvert n=%d m=%d rows %s columns %s' % t, numeric.run_invert, M, *t)
    ctx.prove()
    ctx.run_native(exe, 'numeric', 40000000, 500 if ctx.thorough() else 20)
    return ctx.finish()
