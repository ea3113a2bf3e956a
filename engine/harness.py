"""Check driver: extract IR from /repo's working tree, run the deductive jobs of a
property in parallel, fall back to bounded runs and native replay, write evidence."""
import os, sys, time, json, subprocess, hashlib, tempfile, shutil, traceback, signal, resource
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BASE = '/opt/vp/epics-base'
sys.path.insert(0, HERE)
import z3
import ir, stdlib, strings, sharedptr
import exec as X
from exec import Engine, Restart, Budget, Obl
from sym import Unsupported
import sym

def incs():
    s = REPO + '/src'
    gen = REPO + '/src/O.Common'
    return ['-I%s/include' % HERE, '-I%s' % gen] + ['-I%s/%s' % (s, d) for d in ('misc', 'factory', 'property', 'copy', 'pvMisc', 'json', 'mb', 'monitor')] + \
        ['-I' + s] + ['-I%s/include/compiler/gcc' % BASE, '-I%s/include/os/Linux' % BASE, '-I%s/include' % BASE]
DEFS = ['-D_GNU_SOURCE', '-D_DEFAULT_SOURCE', '-D_X86_64_', '-DUNIX', '-Dlinux', '-DPVD_INTERNAL']
PASSES = 'function(sroa,early-cse,simplifycfg,instsimplify,loop-simplify)'

class Work:
    """scratch directory of one check run"""
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='verif_')
        self.n = 0
    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)
    def gen_headers(self):
        """pvdVersionNum.h is generated by the build; make one if the build directory is absent"""
        if not os.path.exists(REPO + '/src/O.Common/pv/pvdVersionNum.h'):
            os.makedirs(self.d + '/gen/pv', exist_ok=True)
            with open(self.d + '/gen/pv/pvdVersionNum.h', 'w') as f:
                f.write('#ifndef X_PVDV\n#define X_PVDV\n#define EPICS_PVD_MAJOR_VERSION 8\n#define EPICS_PVD_MINOR_VERSION 0\n#define EPICS_PVD_MAINTENANCE_VERSION 6\n#define EPICS_PVD_DEVELOPMENT_FLAG 1\n#endif\n')
            return ['-I' + self.d + '/gen']
        return []
    def extract(self, tus):
        """tus: list of (source path, extra flags); returns list of .ll"""
        procs = []
        extra = self.gen_headers()
        out = []
        for src, flags in tus:
            self.n += 1
            raw = '%s/%d.raw.ll' % (self.d, self.n); ll = '%s/%d.ll' % (self.d, self.n)
            cmd = ['clang++', '-std=c++17', '-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-w',
                   '-D_GLIBCXX_ASSERTIONS', '-fno-access-control'] + DEFS + list(flags) + incs() + extra + [src, '-o', raw]
            sh = ' '.join("'%s'" % c for c in cmd) + " && opt -S -passes='%s' %s -o %s && rm %s" % (PASSES, raw, ll, raw)
            procs.append((src, subprocess.Popen(sh, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=self.d)))
            out.append(ll)
        for s, p in procs:
            o = p.communicate()[0]
            if p.returncode: raise RuntimeError('extraction of %s failed:\n%s' % (s, o[-3000:]))
        return out

SAN_INT = ['-fsanitize=signed-integer-overflow,integer-divide-by-zero', '-fsanitize-trap=all']

class Job:
    def __init__(self, name, fn, fns='', kw=None, budget=200, timeout=20000, bmc=3):
        self.name, self.fn, self.fns, self.kw = name, fn, fns, kw or {}
        self.budget, self.timeout, self.bmc = budget, timeout, bmc

def run_engine(prog, job, opts, setup, unroll=(), force_inv=()):
    """one pass; returns (engine, error or None)"""
    inv = set(force_inv)
    deadline = opts['deadline']
    tries = 0
    while True:
        tries += 1
        E = Engine(prog, opts)
        E.unroll_loops = set(unroll)
        E.inv_loops = set(inv)
        stdlib.install(E); strings.install(E); sharedptr.install(E)
        if setup: setup(E)
        sym._ctr = sym.itertools.count(1)
        err = None
        try:
            job.fn(E, **job.kw)
        except Restart as r:
            if not (E.inv_loops - inv) or tries > 40:
                return E, ('unsupported', 'restart loop %s' % r)
            inv = set(E.inv_loops)
            continue
        except Unsupported as e:
            err = ('unsupported', str(e)[:400])
        except Budget as e:
            err = ('budget', str(e))
        except X.ForkOn as e:
            err = ('unsupported', 'symbolic offset in contract: %s' % str(e.expr)[:200])
        except RecursionError as e:
            err = ('unsupported', 'recursion')
        except z3.Z3Exception as e:
            err = ('unsupported', 'z3: %s %s' % (e, traceback.format_exc()[-600:]))
        except ir.IRError as e:
            err = ('unsupported', 'ir: %s' % e)
        except Exception as e:
            err = ('unsupported', 'internal: %s' % traceback.format_exc()[-1500:])
        E.inv_final = inv
        return E, err

def run_job(prog, job, tier, setup):
    t0 = time.time()
    mult = 1 if tier == 'quick' else 3
    res = {'job': job.name, 'fns': job.fns}
    base = {'timeout': job.timeout * mult, 'debug': bool(os.environ.get('VDEBUG'))}
    o = dict(base, K=1, deadline=t0 + job.budget * mult)
    E, err = run_engine(prog, job, o, setup)
    def bad(E): return [x for x in E.obls if x.status != 'discharged']
    if (err or bad(E)):
        # unroll the loops that have no closed form, if they are short
        E2, err2 = run_engine(prog, job, dict(base, K=10, deadline=time.time() + job.budget * mult), setup, unroll=set(E.inv_final) | {('*', '*')})
        if not err2 and (err or len(bad(E2)) < len(bad(E))):
            E, err = E2, err2
    res['obls'] = [x.as_dict() for x in E.obls]
    res['err'] = err
    res['used'] = E.used; res['inlined'] = E.inlined
    res['loops'] = E.loop_log; res['ms'] = int(E.solver_ms); res['nq'] = E.nq
    res['covers'] = E.cover
    res['npaths'] = E.npaths
    res['bounded'] = None
    if not err and not bad(E):
        res['status'] = 'proved' if E.obls else 'vacuous'
        if any(not c[1] for c in E.cover) or not E.cover: res['status'] = 'vacuous'
    else:
        res['status'] = 'failed' if any(x.status == 'failed' and not x.inexact for x in E.obls) else 'undecided'
        # bounded run of the same contract
        best = None
        for b in ((job.bmc,) if tier == 'quick' else (job.bmc, job.bmc + 2)):
            E3, err3 = run_engine(prog, job, dict(base, bmc=b, deadline=time.time() + job.budget * mult), setup)
            f = [x for x in E3.obls if x.status == 'failed']
            best = {'bound': b, 'err': err3, 'failed': [x.as_dict() for x in f], 'obls': len(E3.obls), 'cut': E3.cut,
                    'unknown': len([x for x in E3.obls if x.status == 'unknown'])}
            if f: break
        res['bounded'] = best
    res['wall'] = round(time.time() - t0, 2)
    return res

_G = {}
EMPTY = {'job': '', 'status': 'undecided', 'err': None, 'obls': [], 'used': {}, 'inlined': {}, 'loops': [], 'ms': 0, 'nq': 0, 'covers': [], 'bounded': None, 'wall': 0, 'fns': '', 'npaths': 0}
def _worker(i):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    sys.setrecursionlimit(20000)
    try:
        j = _G['jobs'][i]
        return run_job(_G['prog'], j, _G['tier'], _G['setup'])
    except BaseException as e:
        return {'job': _G['jobs'][i].name, 'status': 'undecided', 'err': ('crash', traceback.format_exc()[-1500:]), 'obls': [], 'used': {}, 'inlined': {}, 'loops': [], 'ms': 0, 'nq': 0, 'covers': [], 'bounded': None, 'wall': 0, 'fns': '', 'npaths': 0}

def pool_run(prog, jobs, tier, setup, overall, nproc=8):
    """run jobs in forked workers; a job still running at the overall limit is undecided"""
    _G.update(prog=prog, jobs=jobs, tier=tier, setup=setup)
    ctx = mp.get_context('fork')
    results = [None] * len(jobs)
    running = {}
    todo = list(range(len(jobs)))
    t0 = time.time()
    while todo or running:
        while todo and len(running) < nproc and time.time() - t0 < overall:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            def body(i=i, b=b):
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                except Exception: pass
                b.send(_worker(i)); b.close()
                os._exit(0)
            p = ctx.Process(target=body); p.start(); b.close()
            running[i] = (p, a, time.time())
        done = []
        for i, (p, a, s) in running.items():
            if a.poll(0):
                try: results[i] = a.recv()
                except EOFError: pass
                p.join(); done.append(i)
            elif not p.is_alive():
                done.append(i)
            elif time.time() - t0 > overall + 20:
                p.kill(); done.append(i)
        for i in done:
            running.pop(i)
        if not done: time.sleep(0.02)
        if time.time() - t0 > overall and not running: break
    for i, r in enumerate(results):
        if r is None:
            results[i] = {'job': jobs[i].name, 'status': 'undecided', 'err': ('budget', 'not finished within the check budget'), 'obls': [], 'used': {}, 'inlined': {}, 'loops': [], 'ms': 0, 'nq': 0, 'covers': [], 'bounded': None, 'wall': 0, 'fns': jobs[i].fns, 'npaths': 0}
    return results

# ------------------------------------------------------------------ native replay
def build_native(work, prop):
    """compile the replay driver of a property against /repo's sources with ASan+UBSan"""
    src = '%s/replay/%s.cpp' % (VERIF, prop)
    if not os.path.exists(src): return None
    exe = work.d + '/replay_' + prop
    if os.path.exists(exe): return exe
    extra = work.gen_headers()
    flags = ['-std=c++17', '-g', '-O1', '-w', '-fno-access-control', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,alignment,null,nonnull-attribute'] + DEFS
    inc = [i for i in incs() if i != '-I%s/include' % HERE]
    procs = []
    objs = []
    srcs = []
    for d in sorted(os.listdir(REPO + '/src')):
        if d.startswith('O.'): continue
        dd = REPO + '/src/' + d
        for f in sorted(os.listdir(dd)) if os.path.isdir(dd) else []:
            if f.endswith('.cpp'): srcs.append(dd + '/' + f)
    srcs.append(src)
    from concurrent.futures import ThreadPoolExecutor
    def cc(s):
        o = work.d + '/' + hashlib.md5(s.encode()).hexdigest()[:10] + '.o'
        r = subprocess.run(['g++', '-c'] + flags + extra + inc + ['-I%s/replay' % VERIF, s, '-o', o], capture_output=True, text=True)
        return s, o, r
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(cc, srcs))
    for s, o, r in rs:
        if r.returncode:
            sys.stderr.write('native build: %s failed:\n%s\n' % (s, r.stderr[-1500:]))
            if s == src: return None
            continue
        objs.append(o)
    lib = BASE + '/lib/linux-x86_64'
    r = subprocess.run(['g++', '-fsanitize=address,undefined'] + objs + ['-L' + lib, '-Wl,-rpath,' + lib, '-lCom', '-lpthread', '-o', exe], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write('native link failed:\n%s\n' % r.stderr[-2000:]); return None
    return exe
def native_run(exe, args, timeout):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99')
    try:
        r = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, env=env, errors='replace', cwd=os.path.dirname(exe))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
def native_case(exe, words, timeout=30):
    """True when the concrete case fails against the oracle"""
    f = exe + '.case'
    with open(f, 'w') as fh: fh.write(' '.join(str(w) for w in words) + '\n')
    rc, out, err = native_run(exe, ['replay', f], timeout)
    if rc == 0: return None
    if rc is None: return None
    return {'rc': rc, 'stdout': out[-2000:], 'stderr': err[-3000:]}
def native_search(exe, seed, secs, topic=None):
    """search for a failing case; returns (words, report) or None"""
    f = exe + '.last'
    try: os.unlink(f)
    except OSError: pass
    args = ['search', str(seed), str(secs), f] + ([topic] if topic else [])
    rc, out, err = native_run(exe, args, secs + 60)
    if rc in (0, None): return None, out
    try: words = [int(x) for x in open(f, errors='replace').read().split('\0')[0].split()]
    except Exception: words = []
    c = native_case(exe, words)
    if c is None: return None, out
    return (words, c), out

# ------------------------------------------------------------------ main entry
def known_findings(prop):
    p = VERIF + '/known_findings.json'
    try: return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'open']
    except FileNotFoundError: return []

def run_check(prop, mod, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = Work()
    rdir = VERIF + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    try:
        tus = mod.tus(REPO, VERIF)
        jobs = mod.jobs(tier)
        overall = getattr(mod, 'OVERALL', 420) * (1 if tier == 'quick' else 1.5)
        lls, prog = [], None
        try:
            lls = work.extract(tus)
            prog = ir.Program(lls)
        except RuntimeError as e:
            # the source cannot be extracted (clang rejects it): nothing is proved, only the native search is left
            results = [dict(EMPTY, job=j.name, fns=j.fns, err=('extract', str(e)[-1500:])) for j in jobs]
        if prog: results = pool_run(prog, jobs, tier, getattr(mod, 'setup', None), overall)
        probs = [r for r in results if r['status'] != 'proved']
        viol = []
        search_info = None
        native = None
        kf = known_findings(prop)
        need_native = bool(probs) or tier == 'thorough'
        cand = []        # candidate concrete inputs from the verifier
        for r in probs:
            fl = (r['bounded'] or {}).get('failed') or []
            for o in fl + [x for x in r['obls'] if x['status'] == 'failed']:
                if o['cex'] and hasattr(mod, 'cex_case'):
                    try:
                        w = mod.cex_case(r['job'], o['cex'])
                        if w: cand.append((r, o, w))
                    except Exception as e:
                        pass
        if need_native:
            native = build_native(work, prop)
        found = None
        if native:
            for r, o, w in cand[:12]:
                c = native_case(native, w)
                if c:
                    found = (w, c, 'counterexample of the verifier, obligation %s of %s' % (o['name'], r['job'])); break
            if not found:
                left = 780 - (time.time() - t0)
                secs = int(os.environ.get('VSEARCH') or max(5, min(90 if probs else 60, left - 60)))
                hit, out = native_search(native, seed, secs)
                search_info = {'seconds': secs, 'seed': seed, 'result': (out or '').strip()[-300:]}
                if hit: found = (hit[0], hit[1], 'search for a failing input after the proof did not go through' if probs else 'bounded native search')
        for r in probs:
            b = r['bounded'] or {}
            definite = bool(b.get('failed')) or r['status'] == 'failed'
            r['definite'] = definite
        definite = [r for r in probs if r['definite']]
        if found or definite:
            rp = '%s/%s.txt' % (rdir, prop)
            with open(rp, 'w') as f:
                f.write('property %s\n' % prop)
                if found:
                    f.write('failing input (case words; replay: build %s/replay/%s.cpp against /repo and run "replay <file with these words>"):\n%s\n' % (VERIF, prop, ' '.join(map(str, found[0]))))
                    f.write('how found: %s\n%s\n%s\n' % (found[2], found[1]['stdout'], found[1]['stderr']))
                for r in probs:
                    f.write('\njob %s (%s): %s %s\n' % (r['job'], r['fns'], r['status'], r['err'] or ''))
                    for o in r['obls']:
                        if o['status'] != 'discharged': f.write('  obligation NOT discharged: %s [%s] at %s: %s\n    verifier model: %s\n' % (o['name'], o['kind'], o['loc'], o['status'], json.dumps(o['cex'])))
                    for o in ((r['bounded'] or {}).get('failed') or []):
                        f.write('  bounded run (bound %s): obligation fails: %s [%s] at %s\n    verifier model: %s\n' % (r['bounded']['bound'], o['name'], o['kind'], o['loc'], json.dumps(o['cex'])))
            obl = None
            for r in definite or probs:
                for o in ((r['bounded'] or {}).get('failed') or []) + [x for x in r['obls'] if x['status'] == 'failed']:
                    obl = '%s / %s at %s' % (r['job'], o['name'], o['loc']); break
                if obl: break
            viol.append({'replay': rp, 'obligation': obl, 'input': found is not None})
        write_evidence(prop, mod, tier, seed, results, viol, time.time() - t0, lls, tus, search_info, prog)
        for r in results:
            print('%-10s %-44s %4d obligations %6.1fs %s' % (r['status'], r['job'], len(r['obls']), r['wall'], (r['err'] or ['', ''])[1][:300].replace('\n', ' ')))
            if r['status'] != 'proved':
                for o in [x for x in r['obls'] if x['status'] != 'discharged'][:6]:
                    print('      %s: %s at %s%s' % (o['status'], o['name'], o['loc'], ' (approximated path)' if o['inexact'] else ''))
                if r['bounded']: print('      bounded stand-in (bound %s): %d failing, err=%s' % (r['bounded']['bound'], len(r['bounded']['failed']), r['bounded']['err']))
        for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        if search_info: print('native search:', search_info)
        if viol:
            v = viol[0]
            if v['obligation']: print('failed obligation: %s' % v['obligation'])
            print('VIOLATION property=%s replay=%s%s' % (prop, v['replay'], '' if v['input'] else ' no-failing-input-found'))
            return 1
        print('OK property=%s jobs=%d proved=%d obligations=%d wall=%.1fs' % (prop, len(results), sum(r['status'] == 'proved' for r in results), sum(len(r['obls']) for r in results), time.time() - t0))
        return 0
    finally:
        work.close()

def write_evidence(prop, mod, tier, seed, results, viol, wall, lls, tus, search_info, prog):
    nob = sum(len(r['obls']) for r in results)
    dis = sum(1 for r in results for o in r['obls'] if o['status'] == 'discharged')
    undec = [r for r in results if r['status'] != 'proved']
    used = {}
    for r in results:
        for k, v in r['used'].items(): used[k] = used.get(k, 0) + v
    inl = {}
    for r in results:
        for k, v in r['inlined'].items(): inl[k] = inl.get(k, 0) + v
    repofns = sorted(set(X.dem(k) for k in inl if 'epics' in k))
    kinds = {}
    for r in results:
        for o in r['obls']: kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    assumptions += ['IR produced by clang++ -O1 -disable-llvm-passes and opt %s means the same as the g++ build of the same source' % PASSES,
                    'no loop runs 2^60 iterations; a successful heap allocation is below 2^46 bytes and distinct from other live objects',
                    'the VC generator in /verif/engine and z3 are trusted']
    level = 'proof' if not undec else 'bounded'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(wall, 1),
          'violations': len(viol), 'assumptions': assumptions,
          'coverage': {
              'obligations': nob, 'discharged': dis,
              'checker_cmd': 'python3-vt /verif/run.py %s --tier %s' % (prop, tier),
              'trusted_base': ['clang 18 front end + opt (extraction)', '/verif/engine (VC generator)', 'z3 %s (back end)' % z3.get_version_string(), 'cvc5 1.1.2 (second back end: bit-vectors as integers, floating point)'] + sorted('assumed contract: ' + X.dem(k) for k in used),
              'functions_under_contract': [{'job': r['job'], 'functions': r['fns'], 'status': r['status'], 'obligations': len(r['obls']), 'solver_ms': r['ms'], 'paths': r['npaths'], 'wall_s': r['wall']} for r in results],
              'repo_functions_executed': repofns,
              'obligation_kinds': kinds,
              'loops': [l for r in results for l in r['loops']][:80],
              'solver_ms': sum(r['ms'] for r in results), 'solver_queries': sum(r['nq'] for r in results),
              'undecided_jobs': [{'job': r['job'], 'err': r['err'], 'bounded': ({k: r['bounded'][k] for k in ('bound', 'err', 'obls', 'cut', 'unknown')} if r['bounded'] else None), 'label': 'bounded, not proved'} for r in undec],
              'vacuity_covers': sum(len(r['covers']) for r in results),
              'native_search': search_info,
              'extracted': [os.path.relpath(s, REPO) if s.startswith(REPO) else os.path.relpath(s, VERIF) for s, f in tus],
          }}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
