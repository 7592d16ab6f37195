"""Compiles a driver that instantiates the real code of /repo: LLVM IR for the verifier, shared object for replay."""
import os, subprocess, hashlib, tempfile, shutil, atexit, sys
import genconf, llir
REPO = os.environ.get('CPPAD_REPO', '/repo')
CXX = 'clang++-18'
OPT = 'opt-18'
_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='cppadvc.')
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp
def conf():
    d = os.path.join(tmpdir(), 'cfg')
    if not os.path.isdir(d): genconf.generate(REPO, d)
    return d
class BuildError(Exception): pass
PASSES = 'function(sroa,simplifycfg),always-inline,cgscc(inline),function(sroa,early-cse,simplifycfg,loop-simplify)'
def flags(extra=()):
    return ['-std=c++17', '-fno-exceptions', '-ffp-contract=off', '-w'] + list(extra) + ['-I' + conf(), '-I' + REPO + '/include', '-I' + os.path.dirname(os.path.abspath(__file__))]
def run(cmd, timeout=600):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])
    return r.stdout
def ir(src, name, ndebug=True, passes=PASSES, extra=()):
    d = tmpdir(); c = os.path.join(d, name + '.cpp')
    with open(c, 'w') as f: f.write(src)
    a = os.path.join(d, name + '.ll'); b = os.path.join(d, name + '.opt.ll')
    run([CXX] + flags(extra) + (['-DNDEBUG'] if ndebug else []) + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm', c, '-o', a])
    run([OPT, '-S', '-passes=' + passes, a, '-o', b])
    return llir.parse_module(open(b).read())
def so(src, name, extra=(), libs=(), ndebug=True):
    d = tmpdir(); c = os.path.join(d, name + '.cpp')
    with open(c, 'w') as f: f.write(src)
    o = os.path.join(d, name + '.so')
    run([CXX] + [x for x in flags(extra) if x != '-fno-exceptions'] + (['-DNDEBUG'] if ndebug else []) + ['-O1', '-fPIC', '-shared', c, '-o', o] + list(libs))
    return o
