import drivers
def run(ctx):
    exe = ctx.binary('drivers.cpp', 'drivers')
    ctx.assumptions += ['F is twice differentiable at the point and its second partials commute', 'exact real arithmetic', 'integers do not overflow',
        'Forward and Reverse return the Taylor coefficients and their derivatives (C01, C02)', 'the vector classes satisfy the SimpleVector contract',
        'the index and weight vectors have the documented sizes and ranges']
    ctx.trusted += ['clang++-18 -O0 and the opt-18 passes', 'engine/symex.py, engine/drivers.py, engine/normal.py, z3']
    drivers.add(ctx); ctx.prove()
    ctx.run_native(exe, 'drivers', 40000000, 500 if ctx.thorough() else 25)
    return ctx.finish()
