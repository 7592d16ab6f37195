"""setup_cmd: checks that the tools the verifier needs are present"""
import os, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import z3, build, terms, llir, symex, normal, opspec
for t in (build.CXX, build.OPT, 'c++filt', 'nm'):
    if not shutil.which(t): sys.exit('missing tool ' + t)
print('ok: z3', z3.get_version_string())
