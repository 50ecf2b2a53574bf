"""Runs one property: extract the current source, discharge every obligation, run the replay harness on the real code,
write the evidence file, report."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, signal, importlib, pkgutil, multiprocessing as mp, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
sys.path.insert(0, ROOT)
MPI = '/usr/lib/x86_64-linux-gnu/openmpi/include'
def incs():
    return ['-I%s/include' % REPO, '-I%s/stubs' % ROOT, '-I/usr/include/mfem', '-I/usr/include/hypre', '-I/usr/include/hdf5/serial', '-isystem', MPI, '-isystem', MPI + '/openmpi']
LIBS = ('-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial:/usr/lib/x86_64-linux-gnu/openmpi/lib /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so '
        '/usr/lib/x86_64-linux-gnu/libmfem.so /usr/lib/x86_64-linux-gnu/libHYPRE.so /usr/lib/x86_64-linux-gnu/libmetis.so -lyaml-cpp -llapack -lblas '
        '/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi_cxx.so /usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so -lm -ldl -lpthread').split()
DEADLINE = 800

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def build_extractor():
    src = os.path.join(ROOT, 'extract', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(exe): return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    r = sh(['g++', '-O0', '-std=c++17', '-fno-rtti', '-fno-exceptions', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS',
            '-o', tmp, src, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so', '-Wl,-rpath,/usr/lib/llvm-18/lib'])
    if r.returncode: raise RuntimeError('extractor does not build: ' + r.stdout[-2000:])
    os.replace(tmp, exe)
    return exe

def extract(exe, f, scratch):
    """-> (file, parsed json or None, error text)"""
    out = os.path.join(scratch, f.replace('/', '_') + '.json')
    flags = incs() + ['-std=gnu++14', '-w', '-resource-dir=/usr/lib/llvm-18/lib/clang/18']
    with open(out, 'w') as o:
        r = subprocess.run([exe, os.path.join(REPO, f), REPO + '/', '--'] + flags, stdout=o, stderr=subprocess.PIPE, text=True, errors='replace')
    err = [l for l in r.stderr.splitlines() if 'error:' in l]
    return out, r.returncode, err

# ------------------------------------------------------------------ replay harness
class Harness:
    """builds /verif/replay/<name>.cpp with the real sources and runs it"""
    def __init__(self, prop, scratch, seed, tier):
        self.prop = prop; self.scratch = scratch; self.seed = seed; self.tier = tier; self.src = os.path.join(ROOT, 'replay', prop + '.cpp')
        self.result = None
    def exists(self): return os.path.exists(self.src)
    def go(self):
        d = os.path.join(self.scratch, 'h'); os.makedirs(d, exist_ok=True)
        head = open(self.src).readline()
        srcs = head.split('SRC:')[1].split() if 'SRC:' in head else []
        res = {'status': 'none', 'evaluations': 0, 'nontrivial': 0, 'fails': [], 'log': '', 'sources': srcs}
        cxx = ['g++'] + incs() + ['-I' + os.path.join(ROOT, 'replay'), '-O1', '-w', '-std=gnu++14', '-fno-omit-frame-pointer']
        ps = []
        for f in [self.src] + [os.path.join(REPO, 'src', s + '.cpp') for s in srcs]:
            o = os.path.join(d, os.path.basename(f) + '.o')
            if not os.path.exists(f): res['status'] = 'nobuild'; res['log'] = f + ' is gone'; return res
            ps.append((f, o, subprocess.Popen(cxx + ['-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
        objs = []
        for f, o, p in ps:
            out = p.communicate()[0]
            if p.returncode: res['status'] = 'nobuild'; res['log'] = f + ': ' + out[-1500:]
            objs.append(o)
        if res['status'] == 'nobuild': return res
        exe = os.path.join(d, 'harness')
        r = sh(['g++', '-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-o', exe] + objs + LIBS)
        if r.returncode: res['status'] = 'nobuild'; res['log'] = 'link: ' + r.stdout[-1500:]; return res
        run = os.path.join(d, 'run'); os.makedirs(run, exist_ok=True)
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, VERIF_REPO=REPO, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
                   OMPI_MCA_btl='self,vader', OMP_NUM_THREADS='1', TMPDIR=run)
        try:
            with open(os.path.join(run, 'out.txt'), 'w') as fo:
                p = subprocess.run([exe], cwd=run, env=env, stdout=fo, stderr=subprocess.STDOUT, timeout=400 if self.tier == 'quick' else 1500)
            rc = p.returncode
        except subprocess.TimeoutExpired: rc = 'timeout'
        out = open(os.path.join(run, 'out.txt'), errors='replace').read()
        lines = out.splitlines()
        res['fails'] = [l[5:] for l in lines if l.startswith('FAIL ')]
        case = ''
        if os.path.exists(os.path.join(run, 'case.txt')): case = open(os.path.join(run, 'case.txt'), errors='replace').read()
        m = re.search(r'^DONE evaluations=(\d+) nontrivial=(\d+)', out, re.M)
        if m: res['evaluations'] = int(m.group(1)); res['nontrivial'] = int(m.group(2))
        res['samples'] = [l[7:] for l in lines if l.startswith('SAMPLE ')][:3]
        if rc == 'timeout': res['status'] = 'timeout'; res['log'] = out[-1500:]
        elif m and rc == 0 and not res['fails']: res['status'] = 'ok'
        elif res['fails']: res['status'] = 'fail'; res['log'] = out[-3000:]
        else:
            res['status'] = 'fail'; res['fails'] = ['abort[%s] the real code aborted (exit %s) on: %s' % (case.split(' ')[0], rc, case.strip()[:1500])]; res['log'] = out[-3000:]
        return res

# ------------------------------------------------------------------ proofs
PROG = None
class Budget(Exception): pass
def _one(job):
    i, dim, budget = job
    from vc import unit as UU
    u = UU.UNITS[i]
    v = UU.Unit(u.prop, u.name, u.fn, (dim,), u.opts, u.files)
    def onalarm(s, f): raise UU.Unsupported('time budget exhausted')
    signal.signal(signal.SIGALRM, onalarm); signal.setitimer(signal.ITIMER_REAL, budget + 30)
    try: r = UU.verify(PROG, v, maxpaths=u.opts.get('maxpaths', 600), budget=budget)
    except BaseException as x:
        r = {'unit': u.name, 'prop': u.prop, 'status': 'undecided', 'obligations': 0, 'failures': [], 'paths': 0, 'live': 0, 'kinds': {}, 'under': set(), 'inlined': set(),
             'modelled': set(), 'called': set(), 'assumptions': set(), 'loops': 0, 'reason': '%s: %s' % (type(x).__name__, x), 'time': budget, 'queries': 0, 'solver_s': 0}
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    r['dim'] = dim
    for k in list(r):
        if isinstance(r[k], set): r[k] = sorted(map(str, r[k]))
    return i, dim, r

def load_contracts():
    d = os.path.join(ROOT, 'contracts')
    for f in sorted(os.listdir(d)):
        if f.startswith('c_') and f.endswith('.py'): importlib.import_module('contracts.' + f[:-3])

def known_findings():
    fn = os.path.join(ROOT, 'KNOWN_FINDINGS.txt'); out = []
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'finding:\s+property=(\S+)\s+match=(\S+)\s+(.*)', l)
            if m: out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out

def main(prop, tier=None, only=None, verbose=False, noharness=False):
    global PROG
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from vc import unit as UU, interp as II
    load_contracts()
    idx = [i for i, u in enumerate(UU.UNITS) if u.prop == prop and (only is None or only in u.name)]
    scratch = tempfile.mkdtemp(prefix='vc-%s-' % prop)
    ev = os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
    try:
        hp = Harness(prop, scratch, seed, tier)
        hq = None
        if hp.exists() and not noharness:
            hq = mp.Queue()
            def hrun():
                try: hq.put(hp.go())
                except BaseException as x: hq.put({'status': 'error', 'log': repr(x), 'fails': [], 'evaluations': 0, 'nontrivial': 0})
            hproc = mp.Process(target=hrun); hproc.start()
        files = sorted({f for i in idx for f in UU.UNITS[i].files})
        exerr = {}
        asts = []
        if files:
            exe = build_extractor()
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(6) as tp:
                for f, (out, rc, err) in zip(files, tp.map(lambda f: extract(exe, f, scratch), files)):
                    try: asts.append(json.load(open(out)))
                    except Exception as x: err = err or [repr(x)]
                    if err: exerr[f] = err[:5]
                    if os.path.exists(out): os.remove(out)
            PROG = II.Program(asts)
        results = []
        bud = 420 if tier == 'quick' else 1500
        jobs = [(i, d, UU.UNITS[i].opts.get('budget', bud)) for i in idx for d in UU.UNITS[i].dims]
        jobs.sort(key=lambda j: -UU.UNITS[j[0]].opts.get('cost', 1))
        bad = [j for j in jobs if any(f in exerr for f in UU.UNITS[j[0]].files) and not UU.UNITS[j[0]].opts.get('partial')]
        for i, d, _ in bad:
            results.append({'unit': UU.UNITS[i].name, 'dim': d, 'status': 'undecided', 'reason': 'source does not parse: %s' % {f: exerr[f] for f in UU.UNITS[i].files if f in exerr},
                            'obligations': 0, 'failures': [], 'kinds': {}, 'paths': 0, 'live': 0, 'loops': 0, 'under': [], 'inlined': [], 'modelled': [], 'called': [], 'assumptions': [], 'time': 0, 'queries': 0, 'solver_s': 0})
        jobs = [j for j in jobs if j not in bad]
        if jobs:
            with mp.Pool(min(7, len(jobs)), maxtasksperchild=4) as pool:
                it = pool.imap_unordered(_one, jobs, chunksize=1)
                done = set()
                while len(done) < len(jobs):
                    left = (DEADLINE if tier == 'quick' else 7200) - (time.time() - t0)
                    try: i, d, r = it.next(timeout=max(1, left))
                    except mp.TimeoutError:
                        for i, d, _ in jobs:
                            if (i, d) not in done:
                                results.append({'unit': UU.UNITS[i].name, 'dim': d, 'status': 'undecided', 'reason': 'time budget of the check exhausted', 'obligations': 0, 'failures': [], 'kinds': {}, 'paths': 0,
                                                'live': 0, 'loops': 0, 'under': [], 'inlined': [], 'modelled': [], 'called': [], 'assumptions': [], 'time': 0, 'queries': 0, 'solver_s': 0})
                        pool.terminate(); break
                    done.add((i, d)); results.append(r)
                    if verbose:
                        print('%-45s dim=%-4s %-9s obl=%-5d paths=%d live=%d %.1fs %s' % (r['unit'], d, r['status'], r['obligations'], r['paths'], r['live'], r['time'], r['reason'] or ''), flush=True)
                        if r['status'] == 'undecided': print(r.get('tb', ''))
                        for f in r['failures'][:3]: print('    ', f['kind'], '|', f['desc'], '|', f['where'], '|', f['formula'][:int(os.environ.get('FL','300'))], '| PATH', f['path'])
        h = {'status': 'none', 'fails': [], 'evaluations': 0, 'nontrivial': 0, 'log': ''}
        if hq is not None:
            try: h = hq.get(timeout=max(5, (DEADLINE + 60 if tier == 'quick' else 9000) - (time.time() - t0)))
            except Exception: h['status'] = 'timeout'
            hproc.terminate() if h['status'] == 'timeout' else hproc.join()
        return report(prop, tier, seed, results, h, exerr, files, time.time() - t0, ev, verbose, len(idx))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def report(prop, tier, seed, results, h, exerr, files, wall, ev, verbose, nunits):
    known = [(m, t) for p, m, t in known_findings() if p == prop]
    viol = []      # (unit, text, concrete)
    shown = {}
    def isknown(text):
        for m, t in known:
            if m in text: shown[m] = t; return True
        return False
    hf = [f for f in h['fails'] if not isknown(f)]
    for r in results:
        fs = [f for f in r['failures'] if not isknown('%s %s %s' % (r['unit'], f['kind'], f['desc']))]
        r['unknown'] = fs
    failed = [r for r in results if r['unknown']]
    undec = [r for r in results if r['status'] == 'undecided']
    proved = [r for r in results if r['status'] == 'proved']
    nobl = sum(r['obligations'] + len(r['failures']) for r in results); ndis = sum(r['obligations'] for r in results)
    funcs = sorted({x for r in proved for x in r['under']}); inl = sorted({x for r in results for x in r['inlined']} - set(funcs))
    assume = sorted({x for r in results for x in r['assumptions']})
    modelled = sorted({x for r in results for x in r['modelled']})
    called = sorted({x for r in results for x in r['called']})
    base = ['clang 18 front end and the AST extractor /verif/extract', 'verification engine /verif/vc (term normaliser, loop summariser, induction rules)', 'z3 %s (integer/real entailment)' % z3v()]
    base += ['assumed contracts of library functions: ' + ', '.join(modelled)] if modelled else []
    rdir = os.path.join(ev, 'replay'); os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, prop + '.txt')
    status = 'ok'
    if hf or failed: status = 'violation'
    if status == 'violation':
        with open(rfile, 'w') as o:
            o.write('property %s\n' % prop)
            if hf:
                o.write('\nFAILING INPUT ON THE REAL CODE (harness replay/%s.cpp, seed %d; rerun: VERIF_SEED=%d %s/check %s)\n' % (prop, seed, seed, ROOT, prop))
                for f in hf[:20]: o.write('  ' + f + '\n')
            elif h['status'] in ('ok',): o.write('\nreplay search on the real code: %d evaluations, no failing input found\n' % h['evaluations'])
            else: o.write('\nreplay search: %s %s\n' % (h['status'], h['log']))
            for r in failed:
                o.write('\nFAILED OBLIGATIONS of contract %s (dim=%s)\n' % (r['unit'], r['dim']))
                for f in r['unknown'][:6]:
                    o.write('  [%s] %s\n    at %s\n    %s\n    path: %s\n    facts: %s\n' % (f['kind'], f['desc'], f['where'], f['formula'][:4000], f['path'], '; '.join(map(str, f['ctx']))[:3000]))
    evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(wall, 1), 'violations': len(hf) + len(failed),
           'coverage': {'obligations': nobl, 'discharged': ndis, 'checker_cmd': './check ' + prop,
                        'trusted_base': base, 'contracts': len(results), 'contracts_proved': len(proved),
                        'functions_under_contract': funcs, 'functions_verified_by_inlining_in_a_contract': inl,
                        'callee_contracts_used_at_call_sites': called, 'library_functions_by_assumed_contract': modelled,
                        'obligation_kinds': {k: sum(r['kinds'].get(k, 0) for r in results) for k in sorted({k for r in results for k in r['kinds']})},
                        'decision_paths': sum(r['paths'] for r in results), 'feasible_paths': sum(r['live'] for r in results), 'loops_summarised': sum(r['loops'] for r in results),
                        'back_end': 'z3 %s plus the normaliser of /verif/vc' % z3v(), 'solver_queries': sum(r['queries'] for r in results), 'solver_s': round(sum(r['solver_s'] for r in results), 2),
                        'prover_s': round(sum(r['time'] for r in results), 1), 'source_files': files,
                        'undecided_standing_on_bounded_replay': [{'contract': r['unit'], 'dim': r['dim'], 'reason': r['reason']} for r in undec],
                        'replay_harness': {'label': 'bounded, never counted as proved', 'status': h['status'], 'evaluations': h['evaluations'], 'distinct_nontrivial': h['nontrivial'], 'samples': h.get('samples', []), 'log': h['log'][-600:] if h['status'] != 'ok' else ''},
                        'per_contract': [{'contract': r['unit'], 'dim': r['dim'], 'status': r['status'], 'obligations': r['obligations'], 'failed': [f['desc'] for f in r['failures']], 'feasible_paths': r['live'], 's': round(r['time'], 1)} for r in sorted(results, key=lambda r: (r['unit'], str(r['dim'])))]},
           'assumptions': assume + GLOBAL_ASSUMPTIONS}
    with open(os.path.join(ev, prop + '.json'), 'w') as o: json.dump(evd, o, indent=1)
    for m, t in shown.items(): print('KNOWN-FINDING: property=%s %s' % (prop, t))
    print('%s: %d contracts, %d proved, %d undecided, %d obligations of %d discharged; replay harness %s (%d evaluations); %.1f s' % (prop, len(results), len(proved), len(undec), ndis, nobl, h['status'], h['evaluations'], wall))
    if verbose and h['status'] != 'ok': print(h['log'][-3000:])
    for r in undec: print('  undecided: %s dim=%s: %s' % (r['unit'], r['dim'], str(r['reason'])[:300]))
    if status == 'violation':
        for r in failed: print('  failed obligation: %s: [%s] %s' % (r['unit'], r['unknown'][0]['kind'], r['unknown'][0]['desc']))
        for f in hf[:5]: print('  failing input: ' + f[:400])
        print('VIOLATION property=%s replay=%s%s' % (prop, rfile, '' if hf else ' no-failing-input-found'))
        return 1
    if os.path.exists(rfile): os.remove(rfile)
    return 0
def z3v():
    import z3; return z3.get_version_string()
GLOBAL_ASSUMPTIONS = ['integers are mathematical (no overflow)', 'doubles are real numbers (no rounding, NaN or infinity)', 'divisors are nonzero', 'objects passed as distinct arguments do not alias', 'allocation succeeds',
                      'units marked dim=d are proved per space dimension d; every other size is unbounded']
