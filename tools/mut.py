"""development aid: runs a check against a scratch copy of /repo with one text replaced.
usage: mut.py PROP FILE OLD NEW [occurrence]   (env PROOF=1: proofs only, NATIVE=1: replay only)"""
import sys, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, f, o, n = sys.argv[1:5]; j = int(sys.argv[5]) if len(sys.argv) > 5 else 0
w = tempfile.mkdtemp(prefix='mut.', dir='/tmp'); t = os.path.join(w, 'r')
try:
    subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
    shutil.copy('/repo/include/cppad/configure.hpp', t + '/include/cppad/configure.hpp')
    if os.path.exists('/repo/cppad_lib/temp_file.cpp'): shutil.copy('/repo/cppad_lib/temp_file.cpp', t + '/cppad_lib/temp_file.cpp')
    o = o.encode().decode('unicode_escape'); n = n.encode().decode('unicode_escape')
    s = open(t + '/' + f).read(); q = s.split(o); assert len(q) > j + 1, 'text not found'
    if len(q) > 2 and len(sys.argv) <= 5: sys.exit('%d occurrences' % (len(q) - 1))
    open(t + '/' + f, 'w').write(o.join(q[:j + 1]) + n + o.join(q[j + 1:]))
    e = dict(os.environ, CPPAD_REPO=t, VERIF_SEED='1', PYTHONHASHSEED='0')
    r = subprocess.run(['python3-vt', V + '/engine/check.py', prop], env=e, capture_output=True, text=True)
    print(r.stdout[-2500:], r.stderr[-800:], 'exit', r.returncode)
    if r.returncode:
        for l in r.stdout.splitlines():
            if l.startswith('VIOLATION'): print(open(l.split('replay=')[1].split()[0]).read()[:700]); break
finally: shutil.rmtree(w)
