#!/usr/bin/env python3-vt
"""Check one property:  python3-vt run.py C01

1. dump the SSA of /repo's working tree (tools/ssadump),
2. generate and discharge the obligations of the property's contracts (contracts/cNN.py),
3. execute the same contracts at run time on the real code (harness/*.go, bounded), which also
   supplies the concrete failing input for an obligation that fails,
4. write evidence/<id>.json;  exit 0, or exit 1 with a VIOLATION line.
"""
import sys, os, json, time, subprocess, importlib, multiprocessing, tempfile, traceback, shutil, hashlib, re
if os.environ.get('PYTHONHASHSEED') != '0':     # the order of sets decides the order of the queries
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
T0 = time.time()
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
MODULES = ['./...', 'github.com/dgryski/go-pcgr']


def goenv():
    e = dict(os.environ)
    e.update(GOPROXY='off', GOSUMDB='off', GONOSUMDB='*', GOTOOLCHAIN='local', GOFLAGS='')
    return e


def build_dumper():
    """tools/ssadump, rebuilt when its source changed"""
    src = os.path.join(VERIF, 'tools', 'ssadump')
    h = hashlib.sha256()
    for f in ('main.go', 'go.mod', 'go.sum'):
        h.update(open(os.path.join(src, f), 'rb').read())
    exe = os.path.join(VERIF, 'build', 'ssadump-' + h.hexdigest()[:16])
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = '%s.%d' % (exe, os.getpid())
        e = goenv()
        e['GOFLAGS'] = '-mod=mod'
        r = subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=src, env=e, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('building ssadump failed:\n' + r.stderr)
        os.rename(tmp, exe)
    return exe


def dump(work):
    out = os.path.join(work, 'ssa.json')
    r = subprocess.run([build_dumper(), out] + MODULES, cwd=REPO, env=goenv(), capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise RuntimeError('SSA dump of the repository failed:\n' + (r.stderr + r.stdout)[-4000:])
    return out


def run_unit(job):
    """generate and discharge the obligations of a unit. What the solver leaves open may depend on the order
    of its steps: a unit with an open obligation is tried again, from scratch, with other random seeds (what
    is proved in any complete run is proved)"""
    t0 = time.time()
    for attempt in range(3):
        r = attempt_unit(job, attempt)
        r['attempts'] = attempt + 1
        if not r['err'] and all(o['status'] == 'proved' for o in r['obls']) or time.time() - t0 > 120:
            break
    return r


def attempt_unit(job, attempt):
    prop, ssa, idx, budget = job
    from gvc import core, externs
    import z3
    if attempt:
        z3.set_param('smt.random_seed', attempt)
        z3.set_param('sat.random_seed', attempt)
    mod = importlib.import_module('contracts.' + prop.lower())
    name, fn = mod.UNITS[idx]
    t0 = time.time()
    err = ''
    E = None
    try:
        E = core.Engine(core.Prog(ssa), dict(externs.EXTERNS), budget)
        E.cur = name
        fn(E)
        if not [o for o in E.obls if o.kind == 'reach']:
            raise core.Unsupported('the unit checks no reachability')
    except BaseException as e:
        err = '%s: %s' % (type(e).__name__, e)
        tb = traceback.format_exc()
        if not isinstance(e, (core.Unsupported, core.Budget)):
            err += '\n' + tb
    obls = [dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, secs=round(o.secs, 3), detail=o.detail, model=o.model) for o in E.obls] if E else []
    return dict(unit=name, err=err, obls=obls, wall=time.time() - t0,
                solver=E.t_solver if E else 0, queries=E.n_queries if E else 0,
                inlined=sorted(E.inlined) if E else [], roots=sorted(getattr(E, 'roots', [])) if E else [],
                assumed=sorted(E.assumed) if E else [],
                contracts=sorted(E.used_contracts) if E else [], loops=getattr(E, 'loopinfo', {}) if E else {})


def start_harness(h, work, tier):
    """go test with the harness laid over the package"""
    rep = {}
    common = os.path.join(work, 'common-%s.go' % h['name'])
    open(common, 'w').write(open(os.path.join(VERIF, 'harness', 'common.go.txt')).read().replace('__PKG__', h['package']))
    rep[os.path.join(REPO, h['pkg'], 'common_verif_test.go')] = common
    for f in h['files']:
        rep[os.path.join(REPO, h['pkg'], os.path.basename(f)[:-len('.go.txt')] + '_verif_test.go')] = os.path.join(VERIF, 'harness', f)
    ov = os.path.join(work, 'ov-%s.json' % h['name'])
    json.dump({'Replace': rep}, open(ov, 'w'))
    e = goenv()
    e.update(VERIF_SEED=str(SEED), VERIF_TIER=tier, VERIF_DIR=VERIF)
    log = open(os.path.join(work, 'go-%s.log' % h['name']), 'w+')
    cmd = ['go', 'test', '-overlay', ov, '-vet=off', '-count=1', '-run', h['run'], '-timeout', '%ds' % h.get('timeout', 300 if tier == 'quick' else 3000), '-v']
    if h.get('race'):
        cmd.append('-race')
    cmd.append('./' + h['pkg'])
    p = subprocess.Popen(cmd, cwd=REPO, env=e, stdout=log, stderr=subprocess.STDOUT, text=True)
    return dict(h=h, p=p, log=log, cmd=' '.join(cmd), t0=time.time())


def end_harness(r):
    r['p'].wait()
    r['log'].flush()
    r['log'].seek(0)
    out = r['log'].read()
    res = dict(name=r['h']['name'], cmd=r['cmd'], rc=r['p'].returncode, wall=round(time.time() - r['t0'], 1), fails=[], evals=0, distinct=0, rules=[], samples=[], built=True, out=out)
    for line in out.splitlines():
        line = line.strip()
        m = re.search(r'VERIF-FAIL (.*)', line)
        if m:
            res['fails'].append(m.group(1))
        m = re.search(r'VERIF-STATS (\{.*\})', line)
        if m:
            d = json.loads(m.group(1))
            res['evals'] += d['evaluations']
            res['distinct'] += d['distinct_nontrivial']
            res['rules'].append(d['rule'])
            res['samples'] += d.get('samples') or []
    if res['rc'] != 0 and not res['fails']:
        if '[build failed]' in out or '[setup failed]' in out or 'no required module' in out:
            res['built'] = False
        elif 'VERIF-SKIP' in out:
            pass
        else:
            res['fails'].append('the run-time contract test ended abnormally (panic or time-out)')
    if res['rc'] == 0 and not res['rules']:
        res['built'] = False
    return res


def main():
    prop = sys.argv[1]
    mod = importlib.import_module('contracts.' + prop.lower())
    work = tempfile.mkdtemp(prefix='gvc-%s-' % prop)
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    try:
        code = check(prop, mod, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(prop, mod, work):
    harnesses = [start_harness(h, work, TIER) for h in getattr(mod, 'HARNESS', [])]
    units, dump_err = [], ''
    try:
        ssa = dump(work)
    except Exception as e:
        dump_err = str(e)
    budget = getattr(mod, 'BUDGET', 300)
    if not dump_err:
        jobs = [(prop, ssa, i, budget) for i in range(len(mod.UNITS))]
        with multiprocessing.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
            units = pool.map(run_unit, jobs, chunksize=1)
    hres = [end_harness(h) for h in harnesses]
    if dump_err and any(h['built'] is False for h in hres) or dump_err:
        units = [dict(unit='front end', err=dump_err, obls=[], wall=0, solver=0, queries=0, inlined=[], roots=[], assumed=[], contracts=[], loops={})]
    nobl = sum(len(u['obls']) for u in units) + sum(1 for u in units if u['err'])
    bad = []
    for u in units:
        for o in u['obls']:
            if o['status'] != 'proved':
                bad.append((o['name'], '%s %s' % (o['status'], o['detail']), o['model']))
        if u['err']:
            bad.append((u['unit'] + '/verification completes', u['err'], ''))
        elif not u['obls']:
            bad.append((u['unit'] + '/has obligations', 'no obligation generated', ''))
            nobl += 1
    ndis = nobl - len(bad)
    fails = [(h['name'], f, h) for h in hres for f in h['fails']]
    viol = bool(bad or fails)
    write_evidence(prop, mod, units, hres, nobl, ndis, bad, fails)
    for u in units:
        print('%-60s %4d obligations  %6.1fs  solver %6.1fs%s' % (u['unit'], len(u['obls']), u['wall'], u['solver'], '  ERROR ' + u['err'].splitlines()[0] if u['err'] else ''))
    for h in hres:
        print('bounded %-40s %s  evaluations %d  %.1fs' % (h['name'], 'ok' if h['built'] and not h['fails'] else 'FAILED' if h['fails'] else 'NOT RUN (does not build)', h['evals'], h['wall']))
    print('property %s: %d obligations, %d discharged; %d bounded evaluations; %.1fs' % (prop, nobl, ndis, sum(h['evals'] for h in hres), time.time() - T0))
    if not viol:
        return 0
    rp = os.path.join(VERIF, 'out', 'replay-%s.txt' % prop)
    with open(rp, 'w') as f:
        f.write('property %s\n' % prop)
        for n, d, m in bad:
            f.write('\nOBLIGATION NOT DISCHARGED: %s\n  %s\n' % (n, d))
            if m:
                f.write('  verifier model: %s\n' % m)
        for n, x, h in fails:
            f.write('\nFAILING INPUT on the real code (%s): %s\n' % (n, x))
        for h in hres:
            if h['fails']:
                f.write('\nreplay: VERIF_SEED=%d VERIF_TIER=%s, in %s:\n  %s\n\n%s\n' % (SEED, TIER, REPO, h['cmd'], h['out'][-6000:]))
                f.write('overlay: %s laid over package %s as *_verif_test.go\n' % (h['name'], REPO))
    for n, d, m in bad[:10]:
        print('  not discharged: %s  [%s]' % (n, d.splitlines()[0][:200] if d else ''))
    for n, x, h in fails[:10]:
        print('  failing input: %s: %s' % (n, x if len(x) < 900 else x[:600] + ' ... ' + x[-280:]))
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fails else ' no-failing-input-found'))
    return 1


def write_evidence(prop, mod, units, hres, nobl, ndis, bad, fails):
    level = getattr(mod, 'LEVEL', 'proof')
    backends = {}
    kinds = {}
    for u in units:
        for o in u['obls']:
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    trusted = ['gvc (SSA front end, symbolic semantics and Houdini loop rule in /verif/gvc and /verif/tools/ssadump)', 'golang.org/x/tools/go/ssa', 'z3 and cvc5']
    ext = sorted({a for u in units for a in u['assumed']})
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd='python3-vt /verif/run.py %s' % prop,
               trusted_base=trusted + ['assumed contract of ' + a for a in ext],
               by_backend=backends, by_kind=kinds,
               solver_s=round(sum(u['solver'] for u in units), 2), solver_queries=sum(u['queries'] for u in units),
               functions_under_contract=[u['unit'] for u in units],
               functions_verified_inlined=sorted({a for u in units for a in u['inlined']}),
               contracts_used_modularly=sorted({a for u in units for a in u['contracts']}),
               undischarged=[b[0] for b in bad])
    cov['loop_invariants'] = {k: len(v) for u in units for k, v in u['loops'].items()}
    cov['evaluations'] = sum(h['evals'] for h in hres)
    cov['distinct_nontrivial'] = sum(h['distinct'] for h in hres)
    cov['rule'] = ' | '.join(r for h in hres for r in h['rules']) or 'no bounded harness'
    cov['samples'] = [s for h in hres for s in h['samples']][:6]
    cov['bounded_stand_in'] = [dict(name=h['name'], evaluations=h['evals'], ran=h['built'], note='bounded run-time execution of the contracts on the real code; not counted as proved') for h in hres]
    if not nobl:
        cov['obligations'] = 0
    ev = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + ['int and int64 arithmetic is treated as mathematical unless an overflow obligation is listed; machine floats are reals with uninterpreted rounding constrained by facts valid for IEEE-754'],
              wall_s=round(time.time() - T0, 2), violations=1 if bad or fails else 0)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    main()
