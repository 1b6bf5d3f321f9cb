#!/usr/bin/env python3-vt
"""check.py <property> : decide one property on /repo's current working tree."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, multiprocessing as mp, signal, traceback, re, threading
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick'); TIER = TIER if TIER in ('quick', 'thorough') else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CLANG = ['clang++', '-std=c++11', '-I', REPO + '/include', '-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-g0', '-w', '-DNO_LIBUNWIND', '-DNO_LIBDWARF']
GXX = ['g++', '-std=c++11', '-O1', '-g0', '-w', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-I', REPO + '/include', '-I', HERE + '/oracle']

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def worker(args):
    import irv.ir as ir, irv.contract as ct
    llfile, modname, idx, budget, boost = args
    try:
        m = ir.load(llfile)
        S = importlib.import_module(modname).SPECS[idx]
        if boost: S.opts = dict(S.opts, timeout=S.opts.get('timeout', 20000)*boost, slow=boost)
        return ct.verify(m, S, budget)
    except BaseException as e:
        return dict(entry='spec %d' % idx, doc='', status='unsupported', reason='internal: %r' % (e,), obls=[], failed=[], time=0, smt_time=0, queries=0, inlined=[], trusted=[], loops={})

NONE = dict(obls=[], failed=[], time=0, smt_time=0, queries=0, inlined=[], trusted=[], loops={})
def bad(r): return r['status'] != 'ok' or bool(r['failed'])
def failing(r): return r['status'] == 'ok' and bool(r['failed'])
def run_specs(jobs, nproc, maxfail, deadline):
    """each spec in its own process with a hard time limit; after maxfail failures no further spec is started
    (the verdict is then settled by repeating the failed ones)"""
    res = {}; todo = list(jobs); live = []; nbad = 0
    while todo or live:
        while todo and len(live) < nproc and nbad < maxfail and time.time() < deadline:
            key, a = todo.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=lambda a=a, w=w: w.send(worker(a))); p.start(); w.close()
            live.append((key, p, r, time.time() + a[3] + 60, a))
        if not live: break
        for x in list(live):
            key, p, r, lim, a = x
            if r.poll(0.01):
                try: res[key] = r.recv()
                except EOFError: res[key] = None
            elif p.is_alive() and time.time() < min(lim, deadline): continue
            else:
                res[key] = None
                if p.is_alive(): p.kill()
            p.join(); live.remove(x)
            if res[key] is None: res[key] = dict(NONE, entry='spec', doc='', status='unsupported', reason='verifier process ended or ran out of time')
            if failing(res[key]):
                nbad += 1
                if nbad >= maxfail and todo: deadline = min(deadline, time.time() + 90)
        time.sleep(0.01)
    return res

def main():
    pid = sys.argv[1]; t0 = time.time()
    sys.path.insert(0, HERE)
    mod = importlib.import_module('specs.' + pid)
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try: rc = decide(pid, mod, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

OUT = {}
def oracles(opar, tmp):
    """replay programs / bounded stand-in, run beside the prover"""
    ev = dict(evals=0, nontriv=0, tests=[], samples=[]); fails = []; obuilt = True; olog = ''
    for o, p, exe in opar:
        out, _ = p.communicate()
        if p.returncode != 0: obuilt = False; olog += out[-6000:]; continue
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000', VERIF_SEED=str(SEED), VERIF_TIER=TIER)
        try: r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, cwd=tmp, timeout=600 if TIER == "quick" else 3000)
        except subprocess.TimeoutExpired: fails.append(o + ' | replay program did not finish'); continue
        for l in r.stdout.splitlines():
            m = re.match(r'TEST (\S+) evals=(\d+) nontrivial=(\d+) fails=(\d+)', l)
            if m: ev['evals'] += int(m.group(2)); ev['nontriv'] += int(m.group(3)); ev['tests'].append(m.group(1))
            elif l.startswith('SAMPLE '): ev['samples'].append(l[7:300])
            elif l.startswith('FAIL '): fails.append(l[5:])
    OUT.update(ev=ev, fails=fails, obuilt=obuilt, olog=olog)

def decide(pid, mod, tmp, t0):
    log = []
    # --- build: IR of the harness (real templates of /repo), and the replay program
    opar = []
    for n, o in enumerate(getattr(mod, 'ORACLES', [pid + '.cpp'])):
        opar.append((o, subprocess.Popen(GXX + getattr(mod, 'ORACLE_FLAGS', []) + [HERE + '/oracle/' + o, '-o', '%s/oracle%d' % (tmp, n)] + getattr(mod, 'ORACLE_LIBS', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), '%s/oracle%d' % (tmp, n)))
    harn = {}
    for h in sorted({getattr(s, 'harness', None) or pid + '.cpp' for s in mod.SPECS}):
        r = sh(CLANG + getattr(mod, 'HARNESS_FLAGS', []) + [HERE + '/harness/' + h, '-o', tmp + '/a.ll'])
        if r.returncode == 0: r = sh(['opt', '-S', '-passes=sroa,simplifycfg', tmp + '/a.ll', '-o', tmp + '/' + h + '.ll'])
        harn[h] = (r.returncode == 0, tmp + '/' + h + '.ll', r.stdout[-4000:])
    # --- prove
    budget = 240 if TIER == 'quick' else 900
    jobs = []; results = {}
    only = os.environ.get('VERIF_ONLY')
    for i, s in enumerate(mod.SPECS):
        if only and not re.search(only, s.entry): continue
        h = getattr(s, 'harness', None) or pid + '.cpp'
        if not harn[h][0]: results[i] = dict(entry=s.entry, doc=s.doc, status='unsupported', reason='harness does not compile: ' + harn[h][2][-600:], obls=[], failed=[], time=0, smt_time=0, queries=0, inlined=[], trusted=[], loops={}); continue
        jobs.append((i, (harn[h][1], 'specs.' + pid, i, budget, 0)))
    nproc = max(1, min(8, (os.cpu_count() or 8)))
    orun = threading.Thread(target=oracles, args=(opar, tmp)); orun.start()
    long = TIER != 'quick'; end1 = t0 + (520 if not long else 3000); end2 = t0 + (800 if not long else 6000)
    pending = list(jobs); settled = False
    while pending and not settled:
        results.update(run_specs(pending, nproc, 6, end1))
        pending = [(k, a) for k, a in pending if k not in results]
        redo = [(k, a[:4] + (4,)) for k, a in jobs if k in results and bad(results[k]) and a[4] == 0 and results[k].get('boost') is None and (results[k]['failed'] or 'time' in results[k].get('reason', ''))]
        if redo:
            orun.join()
            if OUT['fails']: settled = True                       # a failing input settles it
            else:
                first = {k: results[k] for k, _ in redo}
                for k, r in run_specs(redo, max(1, nproc//2), 1, end2).items():
                    r['boost'] = 4
                    if r['status'] == 'ok' or first[k]['status'] != 'ok': results[k] = r
                    if failing(results[k]): settled = True
        elif pending and time.time() > end1: break
    spec_of = dict(jobs)
    for k, a in pending:
        s_ = mod.SPECS[k]
        if settled: results[k] = dict(NONE, entry=s_.entry, doc=s_.doc, status='skipped', reason='not attempted: a violation is already established')
        else: results[k] = dict(NONE, entry=s_.entry, doc=s_.doc, status='unsupported', reason='out of time')
    for k, r in results.items():
        if r['entry'] == 'spec': r.update(entry=mod.SPECS[k].entry, doc=mod.SPECS[k].doc)
    orun.join()
    ev, fails, obuilt, olog = OUT['ev'], OUT['fails'], OUT['obuilt'], OUT['olog']
    # --- known findings
    kf = json.load(open(HERE + '/known-findings.json'))
    known = []; unknown = []
    for f in fails:
        hit = [k for k in kf['known'] if k['property'] == pid and k['match'] in f]
        (known if hit else unknown).append((f, hit[0] if hit else None))
    for k in kf['known']:
        if k['property'] == pid and any(h is k for _, h in known): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    # --- verdict
    failed = []
    for i in sorted(results):
        for o in results[i]['failed']: failed.append((results[i], o))
    allobl = [o for r in results.values() for o in r['obls'] if r['status'] == 'ok']
    nob = len(allobl); ndis = sum(1 for o in allobl if o[2])
    verdict = 0; line = None
    rp = HERE + '/replay'; os.makedirs(rp, exist_ok=True); rfile = '%s/%s.txt' % (rp, pid)
    if os.path.exists(rfile): os.unlink(rfile)
    real_failed = [(r, o) for r, o in failed if r['status'] == 'ok']
    unsx = [r for r in results.values() if r['status'] not in ('ok', 'skipped')]     # out of the verifier's reach on this tree: decided by the bounded stand-in only, and labelled so
    if unknown or real_failed or not obuilt:
        verdict = 1
        with open(rfile, 'w') as f:
            f.write('property %s violated on the current tree of %s\n\n' % (pid, REPO))
            if real_failed:
                f.write('Failed proof obligations (contract entry | function | obligation):\n')
                for r, o in real_failed[:20]:
                    f.write('  OBLIGATION %s\n     contract: %s\n     goal: %s\n' % (o['name'], r['doc'], (o['goal'] or '')[:1200]))
                    if o['model']: f.write('     verifier counterexample (solver model): %s\n' % o['model'][:3000])
            for r in unsx: f.write('  (not decided by proof on this tree: %s (%s): %s)\n' % (r['entry'], r['doc'], r.get('reason', '')))
            if unknown:
                f.write('\nFailing inputs, run against the real code (function(input) expected ... got ...):\n')
                for u, _ in unknown[:30]: f.write('  ' + u + '\n')
                f.write('\nReproduce: cd %s && VERIF_SEED=%d VERIF_TIER=%s python3-vt check.py %s   (program oracle/%s.cpp, test name before the bar)\n' % (HERE, SEED, TIER, pid, pid))
            if not obuilt: f.write('\nThe replay program no longer compiles against the library:\n' + olog)
        line = 'VIOLATION property=%s replay=%s' % (pid, rfile) + ('' if unknown else ' no-failing-input-found')
    # --- evidence
    uns = [r for r in results.values() if r['status'] != 'ok']
    level = 'proof' if not uns and nob else 'exploration'
    backends = {}
    for o in allobl: backends[o[4]] = backends.get(o[4], 0) + 1
    inl = sorted({x for r in results.values() if r['status'] == 'ok' for x in r['inlined']})
    tr = sorted({x for r in results.values() if r['status'] == 'ok' for x in r['trusted']})
    kinds = {}
    for o in allobl: kinds[o[1]] = kinds.get(o[1], 0) + 1
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt check.py ' + pid,
        trusted_base=['irv verification-condition generator (this repository)', 'clang++ 18 front end producing the LLVM IR that is verified', 'opt passes sroa, simplifycfg', 'z3 (Python binding)', 'contracts assumed for the C++ standard library: ' + ', '.join(tr)],
        functions_under_contract=[dict(entry=r['entry'], contract=r['doc'], obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o[2]), paths_returning=r.get('nret'), paths_erroring=r.get('nerr'), time_s=r['time']) for r in results.values() if r['status'] == 'ok'],
        functions_verified_through=[x[:200] for x in inl if 'vif::' in x], obligation_kinds=kinds, backends=backends,
        loop_invariants={k: len(v) for r in results.values() if r['status'] == 'ok' for k, v in r['loops'].items()} if len(json.dumps([list(r['loops']) for r in results.values()])) < 200000 else {},
        solver_time_s=round(sum(r['smt_time'] for r in results.values()), 2), solver_queries=sum(r['queries'] for r in results.values()),
        bounded_stand_in=dict(label='bounded, not counted as proved', scope=getattr(mod, 'BOUNDED', ''), evaluations=ev['evals'], distinct_nontrivial=ev['nontriv'], tests=ev['tests'], samples=ev['samples'][:6], seed=SEED),
        beyond_reach=[dict(entry=r['entry'], contract=r['doc'], reason=r.get('reason', '')) for r in uns])
    if level != 'proof': cov.update(evaluations=ev['evals'], distinct_nontrivial=ev['nontriv'], rule='bounded stand-in: ' + getattr(mod, 'BOUNDED', '') + '; the contracts under beyond_reach are not proved on this tree', samples=ev['samples'][:6])
    assumptions = COMMON_ASSUMPTIONS + list(getattr(mod, 'ASSUME', []))
    nonterm = sorted({x for r in results.values() for x in r.get('nonterm', [])})
    if nonterm: assumptions.append('termination of these loops is not proved: ' + '; '.join(nonterm)[:1500])
    E = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time()-t0, 2), violations=len(real_failed) + len(unknown) + (0 if obuilt else 1))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(E, open('%s/evidence/%s.json' % (HERE, pid), 'w'), indent=1)
    for i in sorted(results):
        r = results[i]
        print('  %-28s %-11s obligations %4d failed %d  %.1fs %s' % (r['entry'], r['status'], len(r['obls']), len(r['failed']), r['time'], r.get('reason', '')[:200] if r['status'] != 'ok' else ''))
    print('%s: %d/%d obligations discharged over %d contracts (%d beyond reach: bounded stand-in only); bounded stand-in: %d evaluations, %d failures; %.1fs' % (pid, ndis, nob, len(results)-len(uns), len(uns), ev['evals'], len(fails), time.time()-t0))
    for r in unsx[:8]: print('  NOT PROVED on this tree (bounded stand-in only):', r['entry'], r.get('reason', '')[:200])
    if line:
        for r, o in real_failed[:8]: print('  failed obligation:', o['name'][:300])
        if not obuilt: print('  the replay program does not compile:', olog[-600:])
        for u, _ in unknown[:6]: print('  failing input:', u[:300])
        print(line)
    sys.stdout.flush()
    return verdict

COMMON_ASSUMPTIONS = [
    'memory allocation succeeds and containers hold at most 2^47 elements',
    'the C++ standard library functions named in trusted_base meet their documented contracts (their bodies are not verified)',
    'clang at -O1 without optimisation passes translates the source faithfully; the verified IR is built from the same headers, instantiated at the element types named in the harness',
    'partial correctness: where no variant was found, a loop is assumed to terminate (listed below); hangs are looked for by the bounded stand-in',
    'exceptions thrown by the standard library for lack of memory are not considered',
    'printing of error messages has no effect on arrays',
]
if __name__ == '__main__': main()
