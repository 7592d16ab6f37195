import special, vecrec
def run(ctx):
    exe = ctx.binary('vecad.cpp', 'vecad', extra=['-fno-access-control'])
    ctx.assumptions += ['floating point arithmetic is exact real arithmetic', 'machine integers behave as mathematical integers',
        'the index is in range (an index out of range is an error the user makes)', 'a variable that an element refers to was stored before the load that uses it (tape order)',
        'instantiated with Base = double; the initialisation of the combined vector by the zero order sweep and the whole replay are replayed (bounded), not proved']
    ctx.trusted += ['clang++-18 -O0 and the opt-18 passes sroa, early-cse, simplifycfg, inlining', 'engine/symex.py, engine/fn.py, engine/normal.py, z3']
    special.add(ctx, special.tasks13())
    vecrec.add(ctx)
    ctx.prove()
    ctx.run_native(exe, 'vecad', 40000000, 600 if ctx.thorough() else 30)
    return ctx.finish()
