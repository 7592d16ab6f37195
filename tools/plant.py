"""Makes /verif/seeded/<id>/ from a bug description file (python): variables id, property, edits [(file, old, new)], needs, breaks, demo (C++ source).
usage: plant.py bug.py...   (scratch worktree under /tmp; nothing is left in /repo)"""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# compiles demo.cpp against the working tree and runs it
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -DNDEBUG -I"$here/cfg" -Iinclude "$here/demo.cpp" cppad_lib/temp_file.cpp -o "$t/demo" -lpthread || exit 2
timeout 120 "$t/demo"
'''
def run(*c, **k): return subprocess.run(c, capture_output=True, text=True, **k)
for bug in sys.argv[1:]:
    b = {}; exec(open(bug).read(), b)
    w = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    t = os.path.join(w, 'r')
    run('git', 'clone', '-q', '/repo', t)
    shutil.copy('/repo/include/cppad/configure.hpp', t + '/include/cppad/configure.hpp')
    if os.path.exists('/repo/cppad_lib/temp_file.cpp'): shutil.copy('/repo/cppad_lib/temp_file.cpp', t + '/cppad_lib/temp_file.cpp')
    d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write(b['demo'])
    os.makedirs(d + '/cfg/cppad', exist_ok=True); sys.path.insert(0, V + '/engine'); import genconf; genconf.generate('/repo', d + '/cfg')
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    r0 = run('bash', d + '/demo.sh', cwd=t)
    for f, o, n, *k in b['edits']:
        s = open(t + '/' + f).read()
        assert s.count(o) == 1 or (k and s.count(o) > k[0]), (b['id'], f, s.count(o))
        q = s.split(o); j = k[0] if k else 0
        open(t + '/' + f, 'w').write(o.join(q[:j + 1]) + n + o.join(q[j + 1:]))
    r1 = run('bash', d + '/demo.sh', cwd=t)
    open(d + '/patch.diff', 'w').write(run('git', 'diff', cwd=t).stdout)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(b['id'], 'clean', r0.returncode, 'patched', r1.returncode, 'OK' if r0.returncode == 0 and r1.returncode not in (0, 2) else 'BAD ' + r0.stderr[-800:] + r0.stdout[-300:] + r1.stderr[-500:])
    shutil.rmtree(w)
