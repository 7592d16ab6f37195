import recprops
def run(ctx):
    exe = ctx.binary('replay.cpp', 'replay', extra=['-fno-access-control'])
    recprops.add(ctx, 'arith')
    ctx.prove()
    ctx.run_native(exe, 'record', 40000000 if ctx.thorough() else 4000000, 600 if ctx.thorough() else 30)
    return ctx.finish()
