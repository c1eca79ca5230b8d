#!/usr/bin/env python3-vt
"""Decide one property:  check.py <ID> [--tier quick|thorough]

exit 0: every obligation discharged (or a listed known finding)
exit 1: VIOLATION line printed
exit 3: no answer (tool limit)
"""
import re, signal, argparse, importlib.util, json, multiprocessing as mp, os, random, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.setrecursionlimit(100000)
import build

def load_config():
    spec = importlib.util.spec_from_file_location('config', os.path.join(VERIF, 'config.py'))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m

class TimeLimit(Exception): pass
class limit:
    def __init__(self, s): self.s = s
    def __enter__(self):
        def h(*a): raise TimeLimit()
        self.old = signal.signal(signal.SIGALRM, h); signal.setitimer(signal.ITIMER_REAL, max(0.1, self.s), 5)
    def __exit__(self, *a): signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, self.old)
_prog = {}
def run_harness(job):
    """executed in a worker process: execute one harness, discharge its obligations"""
    files, name, opts, q = job
    import exe, models, prove, smt, algebra, contracts
    t0 = time.time()
    res = dict(harness=name, obligations=[], error=None, paths=0, executed=[], assumed=[], covers=[], inputs={})
    try:
        prog = _prog.get(tuple(files))
        if prog is None: prog = exe.Program(files); _prog[tuple(files)] = prog
        ex = exe.Exec(prog, models, dict(opts.get('exec', {}), deadline=min(opts['t_end'], time.time() + opts.get('deadline', 400))))
        contracts.install(ex, opts.get('contracts', ()))
        ex.run(name)
        res['paths'] = len(ex.paths); res['steps'] = ex.total_steps
        res['status'] = {}
        for s, pc, cov in ex.paths:
            res['status'][s.split(':')[0]] = res['status'].get(s.split(':')[0], 0) + 1
            for c in cov:
                if c not in res['covers']: res['covers'].append(c)
        res['executed'] = sorted(models.demangle(x) for x in ex.executed); res['assumed'] = sorted(models.demangle(x) for x in ex.assumed)
        res['inputs'] = ex.inputs
        if opts.get('native'): raise Exception('declared bounded' if name.startswith('B_') else 'audit: native sampling only')
        tsolve = time.time(); ndup = {}
        memo = {}
        for ob in ex.obs:
            key = (ob['label'], ob['kind'], ob['a'] if not isinstance(ob['a'], float) else repr(ob['a']), ob['b'] if not isinstance(ob['b'], float) else repr(ob['b']), tuple(c.id for c in ob['pc']) if ob['kind'] != 'eq' or (ob['a'] is not ob['b']) else ())
            if key in memo: st, why = memo[key]
            else:
                nfail = sum(1 for x in res['obligations'] if x['status'] == 'fail')
                left = opts['t_end'] - time.time()
                if nfail >= 10: st, why = 'unknown', 'not examined: %d obligations of this harness already failed' % nfail
                elif left < 2: st, why = 'unknown', 'time limit of the check reached'
                else:
                    st = why = None
                    try:
                        with limit(min(opts.get('ob_s', 90), left)): st, why = prove.discharge(ob)
                        if st == 'fail' and ob['kind'] == 'eq' and not prove.special(ob):
                            with limit(20):
                                if prove.agree(ob, ex.inputs): st, why = 'unknown', 'sides agree to 12 digits at 30 points of the path (rounded literals): ' + str(why)[:200]
                    except TimeLimit: st, why = 'unknown' if st is None else st, 'obligation time limit' if st is None else why
                memo[key] = (st, why)
            o = dict(label=ob['label'], status=st, why=str(why)[:600])
            if st != 'ok':
                o['detail'] = (ob['detail'] or '')[:600]
                o['pc'] = [prove.pretty(c)[:200] for c in ob['pc']][:20]
                if sum(1 for x in res['obligations'] if x['status'] != 'ok' and x.get('wit')) < 6 or st == 'maybe':
                    try:
                        with limit(max(2, min(40, opts['t_end'] - time.time()))):
                            o['wit'] = [{k: v for k, v in e.items() if k != '__uf__' and k in ex.inputs} for e in prove.witnesses(ob, ex.inputs, opts.get('seed', 1))]
                    except TimeLimit: pass
                if st == 'maybe': # a z3 model over approximated functions counts only when evaluation confirms it; otherwise undecided
                    o['status'] = st = 'unknown'
                    try:
                        with limit(20):
                            if any(prove.holds(ob, dict(e, __uf__=prove.uf_value)) is False for e in o.get('wit') or []): o['status'] = 'fail'
                    except TimeLimit: pass
            res['obligations'].append(o)
        res['solve_s'] = time.time() - tsolve; res['z3_calls'] = smt.stats['calls']; res['z3_s'] = round(smt.stats['time'], 2)
    except Exception as e:
        res['error'] = '%s: %s' % (type(e).__name__, e); res['trace'] = traceback.format_exc()[-3000:]
        try: res['executed'] = sorted(models.demangle(x) for x in ex.executed); res['inputs'] = ex.inputs; res['where'] = ''
        except Exception: pass
    res['wall_s'] = round(time.time() - t0, 2)
    return res

def native_run(exe_, harness, env, tmp, inputs):
    w = os.path.join(tmp, 'w.txt')
    with open(w, 'w') as f:
        for k, v in env.items():
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int) and k in inputs and inputs[k][0] == 'I' and v >= 1 << 63: v -= 1 << 64
            f.write('%s\t%s\n' % (k, repr(float(v)) if (k in inputs and inputs[k][0] == 'R') else v))
    try:
        r = subprocess.run([exe_, harness, w], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, cwd=tmp, text=True, errors='replace', env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    except subprocess.TimeoutExpired: return None, 'timeout', ''
    return r.returncode, r.stdout, r.stderr[-1500:]

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--native', action='store_true', help='audit: sample every harness natively instead of proving it'); ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = load_config(); P = cfg.PROPERTIES[a.prop]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    known = load_known(a.prop)
    out_dir = os.path.join(VERIF, 'evidence'); os.makedirs(out_dir, exist_ok=True)
    try:
        hs = P['harnesses']
        libsrc = build.lib_sources()
        names = {os.path.basename(f): f for f in libsrc}
        allfiles = {}
        if P.get('tus') is None: libfiles = build.ir_many(libsrc)
        else: libfiles = build.ir_many([names[t] for t in P['tus'] if t in names])
        jobs = []; skipped = []
        for h in hs:
            hf = os.path.join(VERIF, 'harness', h['file'])
            try: hir = build.ir(hf)
            except build.BuildError as e:
                skipped.append(h['file']); print('note: harness %s does not compile against this tree; its obligations are not decided (%s)' % (h['file'], [l for l in str(e).splitlines() if 'error:' in l][:2])); continue
            fns = [n for n in harness_names(hir) if re.match(h.get('fns') or '', n)]
            for fnm in fns:
                if a.only and a.only not in fnm: continue
                if tier == 'quick' and fnm in h.get('thorough_only', ()): continue
                o = dict(h.get('opts', {})); o.update(h.get('fopts', {}).get(fnm, {})); o['seed'] = seed; o['native'] = a.native or fnm.startswith('B_'); o['t_end'] = t0 + LIMIT[tier]
                jobs.append((hf, ([hir] + libfiles, fnm, o, None)))
        if skipped and not jobs: print('ERROR: no harness compiles'); sys.exit(3)
        results = run_jobs(jobs, a.jobs)
        # a function moved to a file outside the declared set: widen and retry
        redo = [k for k, (j, r) in enumerate(zip(jobs, results)) if r['error'] and 'without contract' in r['error']]
        if redo and P.get('tus') is not None:
            libfiles = build.ir_many(libsrc)
            j2 = [(jobs[k][0], ([jobs[k][1][0][0]] + libfiles,) + jobs[k][1][1:]) for k in redo]
            for k, r in zip(redo, run_jobs(j2, a.jobs)): results[k] = r
    except build.BuildError as e:
        print('ERROR: cannot build: %s' % str(e)[:3000]); sys.exit(3)
    return conclude(a, P, tier, seed, known, jobs, results, t0, out_dir)

LIMIT = dict(quick=540, thorough=2400) # seconds for the proof phase; what is undecided then falls to the bounded native check
def run_jobs(jobs, n):
    if len(jobs) == 1 or n == 1: return [run_harness(j[1]) for j in jobs]
    ctx = mp.get_context('fork'); out = []
    pool = ctx.Pool(min(n, len(jobs)), maxtasksperchild=4)
    try:
        rs = [pool.apply_async(run_harness, (j[1],)) for j in jobs]
        for j, r in zip(jobs, rs):
            try: out.append(r.get(max(1, j[1][2]['t_end'] + 60 - time.time())))
            except mp.TimeoutError: out.append(dict(harness=j[1][1], obligations=[], error='time limit', paths=0, executed=[], assumed=[], covers=[], inputs={}, wall_s=0))
        return out
    finally: pool.terminate()

def harness_names(jl):
    import re
    out = []
    for line in open(jl):
        if line.startswith(('F\tH_', 'F\tB_')): out.append(line.split('\t')[1])
    return out

def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('kind') == 'known': out.append(d)
    return out
def is_known(known, r, o):
    for d in known:
        if d['harness'] == r['harness'] and d['label'] == o['label']: return d
    return None

def conclude(a, P, tier, seed, known, jobs, results, t0, out_dir):
    nob = sum(len(r['obligations']) for r in results); ndis = sum(1 for r in results for o in r['obligations'] if o['status'] == 'ok')
    bad = []; khit = {}; undecided = []; errors = []
    for (hf, job), r in zip(jobs, results):
        if r['error']: errors.append((hf, r)); continue
        if not r['obligations']: errors.append((hf, dict(r, error='vacuous: no obligation generated'))); continue
        for o in r['obligations']:
            if o['status'] == 'ok': continue
            k = is_known(known, r, o)
            if k: khit[(k['harness'], k['label'])] = k; continue
            (bad if o['status'] == 'fail' else undecided).append((hf, r, o))
    tmp = tempfile.mkdtemp(prefix='gvrun'); bounded = []; violations = []
    rc = 0
    try:
        if bad or undecided or errors:
            for hf in sorted({x[0] for x in bad + undecided + errors}):
                try: nat = build.native(hf, san=True)
                except build.BuildError as e:
                    nat = None; print('note: native replay build failed: %s' % str(e)[-1500:])
                B = [x for x in bad if x[0] == hf]; U = [x for x in undecided if x[0] == hf]; E = [x for x in errors if x[0] == hf]
                done = set()
                for _, r, o in B:
                    if (r['harness'], o['label']) in done and len(done) > 3: continue
                    done.add((r['harness'], o['label']))
                    rep = None
                    if nat and sum(1 for v in violations if v[2]) < 5 and time.time() - t0 < LIMIT[tier] + 150: rep = replay(nat, r, o, tmp, seed, known, cand=o.get('wit') or [])
                    violations.append((r, o, rep))
                for h in sorted({x[1]['harness'] for x in U + E}) if a.native or not violations else ():
                    r = [x[1] for x in U + E if x[1]['harness'] == h][0]
                    rep, n, nrun = (None, 0, 0)
                    if nat: rep, n, nrun = sampled(nat, r, tmp, seed, known, [w for x in U if x[1]['harness'] == h for w in x[2].get('wit', [])], 200 if tier == 'quick' else 1500, None if r['error'] else {x[2]['label'] for x in U if x[1]['harness'] == h})
                    bounded.append(dict(harness=h, reason=r['error'] or [x[2]['why'] for x in U if x[1]['harness'] == h][:3], native_runs=nrun, within_precondition=n))
                    if rep: violations.append((r, dict(label=rep['labels'][0], status='fail', why='native run of the real code', detail=''), rep))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    for k in khit.values(): print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    if violations:
        violations.sort(key=lambda v: 0 if v[2] else 1)
        r, o, rep = violations[0]
        path = os.path.join(out_dir, a.prop + '-replay.json')
        with open(path, 'w') as f:
            json.dump(dict(property=a.prop, harness=r['harness'], failed_obligation=o['label'], reason=o.get('why'), detail=o.get('detail'), path_condition=o.get('pc'), replay=rep,
                           all_failed=[dict(harness=x[0]['harness'], label=x[1]['label'], why=x[1].get('why'), detail=x[1].get('detail'), replayed=bool(x[2])) for x in violations][:60]), f, indent=1, default=str)
        print('failed obligation %s in %s: %s' % (o['label'], r['harness'], str(o.get('detail') or o.get('why'))[:400]))
        if rep: print('replayed on the real code: %s -> %s' % (rep['inputs'], rep['output'][:400]))
        print('VIOLATION property=%s replay=%s%s' % (a.prop, path, '' if rep else ' no-failing-input-found'))
        rc = 1
    if a.native:
        for r, o, rep in violations: print('AUDIT-FAIL', r['harness'], rep['labels'][:6], str(rep['inputs'])[:300], rep['output'][:200])
    for b in bounded: print('note: %s not proved (%s); bounded check on %d native runs, %d within the precondition' % (b['harness'], str(b['reason'])[:300], b['native_runs'], b['within_precondition']))
    if not violations and nob == 0: print('ERROR: no obligations'); rc = 3
    if not violations and any(b['within_precondition'] == 0 for b in bounded): print('ERROR: undecided and no native fallback'); rc = 3
    fns = sorted({f for r in results for f in r['executed'] if f.startswith('Gyoto::') or 'Gyoto::' in f})
    ass = sorted({f for r in results for f in r['assumed'] if not f.startswith('gv_')})
    backs = {}
    for r in results:
        for o in r['obligations']:
            if o['status'] == 'ok': backs[o['why']] = backs.get(o['why'], 0) + 1
    ev = dict(property=a.prop, tier=tier, seed=seed, level=P.get('level', 'proof'), wall_s=round(time.time() - t0, 1), violations=len(violations),
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt gv/check.py %s --tier %s' % (a.prop, tier),
                            trusted_base=['clang-18 front end and LLVM ' + build.PASSES, 'gv/exe.py VC generator', 'gv/algebra.py identity test over GF(2^61-1), 4 independent points per identity', 'z3 5.3.2'] ,
                            functions_under_contract=fns, discharged_by=backs, bounded_fallback=bounded, known_findings=len(khit),
                            harnesses=[dict(name=r['harness'], obligations=len(r['obligations']), discharged=sum(1 for o in r['obligations'] if o['status'] == 'ok'), paths=r['paths'], covers=r['covers'], wall_s=r['wall_s'], solver_s=round(r.get('solve_s', 0), 2), z3_calls=r.get('z3_calls', 0), error=r['error']) for r in results],
                            labels=sorted({o['label'] for r in results for o in r['obligations']})[:400]),
              assumptions=['doubles are treated as mathematical reals (no rounding, no NaN unless produced by a constant); a literal denotes the simplest rational (or multiple of pi/n) rounding to it',
                           'integers are bit-vectors; allocation never fails'] + P.get('assumptions', []) + ['assumed contracts of external functions: ' + ', '.join(ass)[:3000]])
    if P.get('bounds'): ev['assumptions'].insert(0, 'bounds: ' + P['bounds'])
    if not a.native:
      with open(os.path.join(out_dir, a.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    if a.v:
        for r in results:
            print('%-44s %4d ob %4d ok %4d paths %6.1fs %s' % (r['harness'], len(r['obligations']), sum(o['status'] == 'ok' for o in r['obligations']), r['paths'], r['wall_s'], r['error'] or ''), r.get('status'))
            if r['error']: print(r.get('trace', ''))
            for o in r['obligations']:
                if o['status'] != 'ok': print('    ', o['status'], o['label'], o['why'][:300], o.get('detail', ''), o.get('pc'), str(o.get('wit'))[:300])
    print('%s %s: %d obligations, %d discharged, %d violations, %.1fs' % (a.prop, tier, nob, ndis, len(violations), time.time() - t0))
    sys.exit(rc)

def fails(out): return [l[5:].split(' : ')[0] for l in out.splitlines() if l.startswith('FAIL ')]
def unknown_fails(out, known, h):
    kl = {d['label'] for d in known if d['harness'] == h}
    return [x for x in fails(out) if x not in kl]
def asan(rc, err): return 'ERROR: AddressSanitizer' in err or (rc is not None and rc < 0 and rc != -14)
def replay(nat, r, o, tmp, seed, known, cand):
    for env in cand:
        rc, out, err = native_run(nat, r['harness'], env, tmp, r['inputs'])
        fl = unknown_fails(out, known, r['harness'])
        if asan(rc, err): return dict(inputs=env, labels=['memory-safety'], output=(err[:800]))
        if rc == 1 and (o['label'] in fl): return dict(inputs=env, labels=fl, output=out[:1500])
    rep, n, nrun = sampled(nat, r, tmp, seed, known, [], 60, {o['label']})
    return rep
def sampled(nat, r, tmp, seed, known, cand, count, labels=None):
    import prove
    rng = random.Random(seed * 7919 + 13); n = 0; k = 0; t0 = time.time()
    for k in range(count):
        env = cand[k] if k < len(cand) else prove.sample(rng, r['inputs'], k); env = {x: y for x, y in env.items() if x != '__uf__'}
        rc, out, err = native_run(nat, r['harness'], env, tmp, r['inputs'])
        if asan(rc, err): return dict(inputs=env, labels=['memory-safety'], output=err[:800]), n, k + 1
        fl = unknown_fails(out, known, r['harness'])
        fl = [x for x in fl if x in labels] if labels is not None else [x for x in fl if ' member@' not in x]
        if rc == 1 and fl: return dict(inputs=env, labels=fl, output=out[:1500]), n, k + 1
        if rc == 0: n += 1
        if time.time() - t0 > 60 or (not r['inputs'] and k >= 1): break
    return None, n, k + 1
if __name__ == '__main__': main()
