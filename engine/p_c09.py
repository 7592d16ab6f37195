import optrun
def run(ctx):
    exe = ctx.binary('replay.cpp', 'replay', extra=['-fno-access-control'])
    ctx.assumptions += ['the recorded operation sequence is valid: each variable argument is the result of an earlier operator', 'exact real arithmetic in the replacement of sums by a cumulative sum',
        'the random iterator returns the operator, arguments and result of the sequence; the recorder operations append to the new sequence (C04)',
        'sets of conditions (list_setvec) by contract: post_element, process_post, assignment, intersection', 'record_csum, get_cexp_info, get_par_usage, get_dyn_previous and atomic function operators are not under contract (bounded replay only, atomics not at all)',
        'loops before the operator loop of optimize_run change only elements of vectors', 'integers do not overflow']
    ctx.trusted += ['clang++-18 -O0 and the opt-18 passes', 'engine/symex.py, engine/iter.py, engine/optusage.py, engine/optrun.py, z3']
    optrun.add(ctx); ctx.prove()
    ctx.run_native(exe, 'optimize', 40000000, 900 if ctx.thorough() else 60)
    return ctx.finish()
