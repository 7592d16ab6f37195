import opprops, special
def run(ctx):
    modes = 'reverse'.split(',')
    exe = ctx.binary('fwdrev.cpp', 'fwdrev')
    cache = opprops.add(ctx, modes)
    special.add(ctx, special.tasks03())
    ctx.prove()
    opprops.native_ops(ctx, modes, cache, 3000 if ctx.thorough() else 400)
    ctx.run_native(exe, 'reverse', 40000000 if ctx.thorough() else 400000, 600 if ctx.thorough() else 25)
    return ctx.finish()
