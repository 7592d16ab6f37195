import opprops, special
def run(ctx):
    modes = 'any,0'.split(',')
    exe = ctx.binary('fwdrev.cpp', 'fwdrev')
    cache = opprops.add(ctx, modes)
    special.add(ctx, special.tasks01())
    ctx.prove()
    opprops.native_ops(ctx, modes, cache, 3000 if ctx.thorough() else 400)
    ctx.run_native(exe, 'forward', 40000000 if ctx.thorough() else 400000, 600 if ctx.thorough() else 25)
    return ctx.finish()
