"""Runs the check of one property:  python3-vt engine/check.py <property>
exit 0: no violation; exit 1: VIOLATION line printed.  Rewrites evidence/<property>.json."""
import os, sys, time, json, signal, subprocess, multiprocessing, traceback, importlib, threading
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build
from symex import Unsupported, ObligationFailed, LoopFail
import prover
TOOL_LIMIT = ('guarded write', 'write pattern', 'direction pattern', 'order pattern', 'order stride', 'iteration paths write different cells',
              'loop exit', 'orders computed in descending order', 'no path returns', 'write at a misaligned offset', 'misaligned partial write')
class Timeout(Exception): pass
def _alarm(*a): raise Timeout()
_ctx = None
def _work(i):
    name, fn, args, limit = _ctx.tasks[i]
    t0 = time.time(); prover.STATS.clear()
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(int(limit))
    r = {'name': name, 'obligations': [], 'detail': ''}
    try:
        log = fn(*args)
        r['obligations'] = list(log); r['status'] = 'proved' if log else 'unknown'
        if not log: r['detail'] = 'no obligation generated (vacuous)'
    except ObligationFailed as e:
        m = str(e.args[0]) if e.args else str(e)
        r['status'] = 'unknown' if any(m.startswith(x) for x in TOOL_LIMIT) else 'failed'
        r['detail'] = ' | '.join(str(a) for a in e.args)[:3000]
        if r['status'] == 'failed' and prover.STATS.get().get('z3_unknown'): r['status'] = 'unknown'; r['detail'] = '(a solver call gave no answer) ' + r['detail']
    except (Unsupported, LoopFail) as e: r['status'] = 'unknown'; r['detail'] = type(e).__name__ + ': ' + str(e)[:1500]
    except Timeout: r['status'] = 'unknown'; r['detail'] = 'time limit of %d s' % limit
    except (MemoryError, RecursionError) as e: r['status'] = 'unknown'; r['detail'] = type(e).__name__
    except Exception as e: r['status'] = 'unknown'; r['detail'] = 'engine error: ' + traceback.format_exc()[-1500:]
    finally: signal.alarm(0)
    r['time'] = round(time.time() - t0, 3); r['stats'] = prover.STATS.get()
    return i, r
class Ctx:
    def __init__(self, prop):
        self.prop = prop; self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time(); self.tasks = []; self.results = []; self.replayers = {}
        self.assumptions = []; self.trusted = []; self.functions = []; self.native = {}; self.fails = []; self.notes = []
        self.evals = 0; self.nontriv = 0; self.samples = []
        self.solver = {}
        self.budget = 700 if self.tier == 'quick' else 3000
    def thorough(self): return self.tier == 'thorough'
    def left(self): return self.budget - (time.time() - self.t0)
    # ---------------------------------------------------------------- proofs
    def task(self, name, fn, *args, limit=None, replay=None):
        """obligations of one function; fn returns the list of discharged obligations or raises.
        replay: callable(result) -> failing input (dict/str) or None"""
        self.tasks.append((name, fn, args, limit or (150 if self.tier == 'quick' else 600)))
        self.replayers[name] = replay
    def module(self, src, name, **kw):
        """LLVM module of the driver; a driver that does not compile is reported as undecided"""
        try: return build.ir(src, name, **kw)
        except build.BuildError as e:
            self.results.append({'name': 'build ' + name, 'status': 'unknown', 'detail': str(e)[-1500:], 'obligations': [], 'time': 0}); return None
    def module_of(self, load, name):
        try: return load()
        except build.BuildError as e:
            self.results.append({'name': 'build ' + name, 'status': 'unknown', 'detail': str(e)[-1500:], 'obligations': [], 'time': 0}); return None
    def prove(self):
        global _ctx
        _ctx = self
        if not self.tasks or os.environ.get('NATIVE'): return
        todo = list(range(len(self.tasks)))
        with multiprocessing.get_context('fork').Pool(min(8, len(todo)), maxtasksperchild=4) as pool:
            for i, r in pool.imap_unordered(_work, todo): self.results.append(r)
        self.tasks_done = self.tasks; self.tasks = []
        self.results.sort(key=lambda r: r['name'])
    # ---------------------------------------------------------------- native
    def binary(self, src, name, extra=(), libs=()):
        """compile a native harness of /verif/native against /repo; returns path or None"""
        d = build.tmpdir(); o = os.path.join(d, name)
        try:
            build.run([build.CXX, '-std=c++17', '-O1', '-w', '-DNDEBUG', '-ffp-contract=off', '-I' + build.conf(), '-I' + build.REPO + '/include', '-I' + VERIF + '/native'] + list(extra)
                      + [os.path.join(VERIF, 'native', src), build.REPO + '/cppad_lib/temp_file.cpp', '-o', o] + list(libs))
            return o
        except (build.BuildError, subprocess.TimeoutExpired) as e:
            self.notes.append('native harness %s was not built: %s' % (src, str(e)[-600:])); return None
    def run_native(self, exe, mode, count, limit, procs=8, label=None, args=()):
        """runs exe mode seed count limit in parallel; collects FAIL lines"""
        if exe is None or os.environ.get('PROOF'): return []
        jobs = []
        for k in range(procs):
            s = self.seed * 64 + k
            cmd = [exe, mode, str(s), str(count), str(limit)] + list(args)
            jobs.append((s, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=lambda: os.nice(5))))
        out = []
        for s, cmd, p in jobs:
            try: so, se = p.communicate(timeout=limit * 4 + 120)
            except subprocess.TimeoutExpired: p.kill(); so, se = p.communicate(); self.notes.append('%s %s timed out' % (os.path.basename(exe), mode))
            done = False
            for l in so.splitlines():
                f = l.split('\t')
                if f[0] == 'FAIL': out.append({'harness': os.path.basename(exe), 'mode': f[1], 'case': f[2], 'what': '\t'.join(f[3:]), 'rerun': 'build native/%s.cpp against /repo, then: %s %s %s 1' % (os.path.basename(exe), os.path.basename(exe), f[1], f[2])})
                elif f[0] == 'DONE':
                    done = True; self.evals += int(f[1]); self.nontriv += int(f[2])
                elif f[0] == 'SAMPLE' and len(self.samples) < 5: self.samples.append('\t'.join(f[1:]))
            if not done and p.returncode and p.returncode not in (-9, -15):
                out.append({'harness': os.path.basename(exe), 'mode': mode, 'case': str(s), 'what': 'the program ended with code %d (negative: signal) after: %s' % (p.returncode, so[-300:] + se[-500:]), 'rerun': ' '.join(cmd)})
        self.fails += out
        return out
    def add_fail(self, d): self.fails.append(d)
    # ---------------------------------------------------------------- verdict
    def finish(self, level='proof'):
        known, fixed = load_known(self.prop)
        rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
        nviol = 0; lines = []; nknown = set()
        def violation(kind, data, noinput=False):
            nonlocal nviol
            text = json.dumps(data, default=str)
            for k in known:
                if k['match'] in text: nknown.add(k['text']); return
            nviol += 1
            if nviol > 6: return
            path = os.path.join(rdir, '%s-%d.json' % (self.prop, nviol))
            with open(path, 'w') as f: json.dump({'property': self.prop, 'kind': kind, 'data': data, 'repo': build.REPO, 'seed': self.seed}, f, indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s%s' % (self.prop, path, ' no-failing-input-found' if noinput else ''))
        for d in self.fails: violation('failing input', d)
        failed = [r for r in self.results if r['status'] == 'failed']
        new = [d for d in self.fails if not any(k['match'] in json.dumps(d, default=str) for k in known)]   # a listed finding is not the input of an obligation
        for r in failed:
            rp = self.replayers.get(r['name']); inp = None
            if rp is not None:
                try: inp = rp(r)
                except Exception as e: self.notes.append('replay of %s: %s' % (r['name'], traceback.format_exc()[-500:]))
            if inp is not None: violation('failed obligation with failing input', {'obligation': r['name'], 'verifier': r['detail'], 'input': inp})
            elif not new: violation('failed obligation', {'obligation': r['name'], 'verifier': r['detail']}, True)
            else: violation('failed obligation', {'obligation': r['name'], 'verifier': r['detail'], 'failing input': new[0]})
        bounded = [r for r in self.results if r['name'].startswith('bounded') and r['status'] == 'proved']
        nd = sum(len(r['obligations']) for r in self.results if r not in bounded)
        open_ = [r for r in self.results if r['status'] != 'proved']
        cov = {'obligations': nd + len(open_), 'discharged': nd,
               'checker_cmd': 'python3-vt engine/check.py %s' % self.prop,
               'trusted_base': self.trusted,
               'functions_under_contract': [{'function': r['name'], 'status': r['status'], 'obligations': len(r['obligations']), 'seconds': r['time']} for r in self.results if r not in bounded],
               'bounded_functions': {'label': 'bounded: stated size, all values; not counted as proved', 'functions': [{'function': r['name'], 'obligations': len(r['obligations'])} for r in bounded][:60]},
               'undischarged': [{'function': r['name'], 'status': r['status'], 'reason': r['detail'][:400]} for r in open_],
               'samples': ([o for r in self.results for o in r['obligations'][:1]][:8] + self.samples)[:12],
               'back_end': 'VC generator over LLVM IR (engine/symex.py), sum algebra normaliser (engine/normal.py), z3 for side conditions',
               'solver': {k: sum(r.get('stats', {}).get(k, 0) for r in self.results) for k in sorted({k for r in self.results for k in r.get('stats', {})})},
               'prover_seconds': round(sum(r['time'] for r in self.results), 2),
               'bounded_replay': {'label': 'bounded, not counted as proved', 'evaluations': self.evals, 'distinct_nontrivial': self.nontriv},
               'notes': self.notes}
        if self.evals: cov['evaluations'] = self.evals; cov['distinct_nontrivial'] = self.nontriv; cov['rule'] = 'bounded replay: seeded random programs/inputs compared with an independent oracle; non-trivial as counted by the harness'
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': nviol}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        for k in sorted(nknown): print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for l in lines: print(l)
        print('%s: %d obligations, %d discharged, %d open; bounded replay evaluations %d; %.1f s' % (self.prop, cov['obligations'], nd, len(open_), self.evals, time.time() - self.t0))
        for r in open_: print('  open: %s [%s] %s' % (r['name'], r['status'], r['detail'][:300].replace('\n', ' ')))
        for n in self.notes: print('  note: ' + n[:300].replace('\n', ' '))
        return 1 if nviol else 0
def load_known(prop):
    known = []; fixed = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                # known: property=Cxx match=<text> :: description
                rest = l.split(' ', 2)[2]
                m, d = rest.split(' :: ', 1)
                known.append({'match': m[len('match='):], 'text': d})
            elif l.startswith('fixed: property=%s ' % prop): fixed.append(l)
    return known, fixed
def main():
    prop = sys.argv[1]
    mod = importlib.import_module('p_' + prop.lower())
    ctx = Ctx(prop)
    try: rc = mod.run(ctx)
    except Exception:
        # an error of the machinery decides nothing: say so and stay quiet
        ctx.notes.append('check error: ' + traceback.format_exc()[-3000:])
        traceback.print_exc()
        rc = ctx.finish()
    sys.stdout.flush()
    return rc
if __name__ == '__main__': sys.exit(main())
