#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

  check.py PROP        (VERIF_SEED, VERIF_TIER from the environment)

Two parts run side by side:
 * proof: pyvc translates the functions of /repo the property depends on, from
   their current source, into proof obligations against the contracts in
   pyvc/specs, and discharges them (pyvc/README in DESIGN.md);
 * contracts at run time: conc/ evaluates the same contracts on executions of
   the real code; it is the search for a failing input, and the labelled
   bounded stand-in for whatever the proof part does not reach.
Exit 0: held. Exit 1: violation (line VIOLATION property=...).
"""
import json, os, subprocess, sys, time, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
PY = '/opt/venv/bin/python'
prop = sys.argv[1]
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
T0 = time.time()
if not os.path.exists(VT):
    VT = 'python3-vt'
META = json.load(open(os.path.join(HERE, 'checks.json')))[prop]
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)


def conc(seeds, seconds, maxn):
    ps = []
    for i, s in enumerate(seeds):
        out = os.path.join(scratch, 'conc-%d-%d.json' % (s, maxn))
        d = os.path.join(scratch, 'cwd-%d-%d' % (s, maxn))
        os.makedirs(d)
        err = open(out + '.err', 'w')
        ps.append((s, out, subprocess.Popen([PY, os.path.join(HERE, 'conc', 'run.py'), prop, '--seed', str(s), '--seconds', str(seconds), '--max', str(maxn), '--out', out],
                                            stdout=subprocess.DEVNULL, stderr=err, cwd=d, env=env)))
    return ps


def collect(ps, timeout):
    res = []
    for s, out, p in ps:
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if os.path.exists(out):
            r = json.load(open(out))
            r['seed'] = s
            res.append(r)
        else:
            res.append(dict(seed=s, error=open(out + '.err').read()[-2000:], ran=0, cases=0, skipped=0, distinct=0, failures=[], sample=None))
    return res


def known():
    out = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        if l.startswith('finding: property=%s ' % prop):
            m = l.split(' match=', 1)[1].split(' what=', 1)
            out.append((m[0].strip(), m[1].strip()))
    return out


quick = tier == 'quick'
nw = 2 if quick else 6
secs = META.get('seconds', 60) if quick else 420
maxn = META.get('max', 300) if quick else 20000
cps = conc([seed * 1000 + i for i in range(nw)], secs, maxn)

proof = None
if META.get('proof'):
    pout = os.path.join(scratch, 'proof.json')
    perr = open(os.path.join(scratch, 'proof.err'), 'w')
    pp = subprocess.Popen([VT, '-m', 'pyvc.main', prop, '--tier', tier, '--out', pout], stdout=subprocess.DEVNULL, stderr=perr, cwd=HERE, env=env)
    try:
        pp.wait(420 if quick else 800)
    except subprocess.TimeoutExpired:
        pp.kill()
        pp.wait()
    if os.path.exists(pout):
        proof = json.load(open(pout))
    else:
        proof = dict(error=open(os.path.join(scratch, 'proof.err')).read()[-3000:] or 'time limit', obligations=0, discharged=0, failed=[], unsupported=[], functions=[], assumed=[], units=[])

cres = collect(cps, secs + 60)
failures = [f for r in cres for f in r['failures']]
errors = [r['error'] for r in cres if r.get('error')]
if proof and proof['failed'] and not failures:
    # an obligation failed: look longer for an input on which the real code shows it
    left = max(30, min(240, 700 - (time.time() - T0)))
    more = collect(conc([seed * 1000 + 100 + i for i in range(7)], left, 100000), left + 60)
    cres += more
    failures = [f for r in more for f in r['failures']]

vio, kf = [], []
for f in failures:
    hit = [w for m, w in known() if m in f['message']]
    if hit:
        if hit[0] not in kf:
            kf.append(hit[0])
    else:
        vio.append(f)

rdir = os.path.join(HERE, 'evidence', 'replay')
os.makedirs(rdir, exist_ok=True)
lines = []
if vio:
    path = os.path.join(rdir, '%s.json' % prop)
    f = vio[0]
    json.dump(dict(property=prop, case=f['case'], message=f['message'], failed_obligations=proof['failed'][:5] if proof else [],
                   replay_cmd='%s %s %s --replay %s' % (PY, os.path.join(HERE, 'conc', 'run.py'), prop, path)), open(path, 'w'), indent=1)
    print(f['message'])
    for o in (proof['failed'][:3] if proof else []):
        print('failed obligation:', o['unit'], o['name'])
    lines.append('VIOLATION property=%s replay=%s' % (prop, path))
elif proof and proof['failed']:
    path = os.path.join(rdir, '%s.json' % prop)
    json.dump(dict(property=prop, failed_obligations=proof['failed'], note='no input was found on which the running code shows the failure'), open(path, 'w'), indent=1)
    for o in proof['failed'][:5]:
        print('failed obligation:', o['unit'], o['name'], '-', o.get('detail', '')[:300])
    lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
elif errors and not any(r['ran'] for r in cres):
    # the real code cannot even be run
    path = os.path.join(rdir, '%s.json' % prop)
    json.dump(dict(property=prop, message='the run-time contracts could not be evaluated', error=errors[0]), open(path, 'w'), indent=1)
    print(errors[0])
    lines.append('VIOLATION property=%s replay=%s' % (prop, path))

level = META['level']
ran = sum(r['ran'] for r in cres)
cov = dict(evaluations=ran, distinct_nontrivial=sum(r['distinct'] for r in cres),
           rule='run-time contract layer (bounded): cases drawn by conc/ cases_%s from the seed, each runs the real code and evaluates the contract; non-trivial: not rejected by the precondition; distinct: by configuration, per worker process' % prop,
           samples=[r['sample'] for r in cres if r['sample'] is not None][:2] or ['none'],
           bounded_note=META['bounded'])
if META.get('proof'):
    cov.update(obligations=proof['obligations'], discharged=proof['discharged'],
               checker_cmd='cd /verif && %s -m pyvc.main %s' % (VT, prop),
               trusted_base=proof.get('assumed', []),
               functions_under_contract=proof.get('functions', []), contracts_replacing_calls=proof.get('contracts', []),
               back_ends=proof.get('backends', {}), solver_time_s=proof.get('solver_time', 0), units=proof.get('units', []),
               unsupported=proof.get('unsupported', []), failed=proof['failed'][:20], proof_error=proof.get('error', ''),
               extraction=proof.get('extraction', ''))
ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=META.get('assumptions', []),
          violations=len(vio) or (1 if lines else 0), wall_s=round(time.time() - T0, 2))
json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
for k in kf:
    print('KNOWN-FINDING: property=%s %s' % (prop, k))
if proof and (proof.get('unsupported') or proof.get('error')):
    print('note: bounded stand-in used where the translation does not reach:', (proof.get('unsupported') or [proof.get('error', '')[-300:]])[:3])
print('%s: %d contract evaluations%s, %.1f s' % (prop, ran, (', %d/%d obligations discharged' % (proof['discharged'], proof['obligations'])) if proof else '', time.time() - T0))
for l in lines:
    print(l)
subprocess.call(['rm', '-rf', scratch])
sys.stdout.flush()
sys.exit(1 if lines else 0)
