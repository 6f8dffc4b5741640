"""Runs the run-time contracts of one property against /repo's working tree.

  run.py PROP --seed S --seconds T [--max N] [--replay FILE] [--out FILE]
Prints one JSON object: cases run, cases skipped, distinct cases, failures.
"""
import argparse, hashlib, json, os, sys, time, traceback
sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import base, fakempi
import p_par, p_mat, p_misc


def find(name):
    for m in (p_par, p_mat, p_misc):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def one(prop, case):
    """None: held; 'skip'; or a message"""
    try:
        with np.errstate(all='ignore'):
            find('check_' + prop)(case)
        return None
    except base.Skip:
        return 'skip'
    except base.Violation as e:
        return str(e)
    except fakempi.Deadlock as e:
        return 'deadlock: %s' % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if '/repo/modred/' in f.filename]
        where = '%s:%d' % (os.path.basename(inrepo[-1].filename), inrepo[-1].lineno) if inrepo else 'check at %s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        return '%s raised at %s: %s' % (type(e).__name__, where, str(e)[:300])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--seconds', type=float, default=20)
    ap.add_argument('--max', type=int, default=400)
    ap.add_argument('--fails', type=int, default=3)
    ap.add_argument('--replay')
    ap.add_argument('--out')
    a = ap.parse_args()
    t0 = time.time()
    fakempi.TIMEOUT = 6.0
    if a.replay:
        case = json.load(open(a.replay))['case']
        r = one(a.prop, case)
        out = dict(prop=a.prop, case=case, result=r)
        print(json.dumps(out))
        sys.exit(0 if r in (None, 'skip') else 1)
    rng = np.random.default_rng([a.seed, int(a.prop[1:])])
    cases = ran = skipped = 0
    seen, fails, sample = set(), [], None
    for case in find('cases_' + a.prop)(rng, a.max):
        if time.time() - t0 > a.seconds:
            break
        cases += 1
        r = one(a.prop, case)
        if r == 'skip':
            skipped += 1
            continue
        ran += 1
        seen.add(hashlib.md5(json.dumps({k: v for k, v in case.items() if k != 'seed'}, sort_keys=True).encode()).hexdigest())
        if sample is None:
            sample = case
        if r is not None:
            fails.append(dict(case=case, message=r))
            if len(fails) >= a.fails:
                break
    out = dict(prop=a.prop, cases=cases, ran=ran, skipped=skipped, distinct=len(seen), sample=sample, failures=fails, wall=time.time() - t0)
    s = json.dumps(out)
    if a.out:
        open(a.out, 'w').write(s)
    print(s)


main()
