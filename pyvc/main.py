"""python -m pyvc.main PROP [--tier T] [--out FILE] [--unit SUBSTRING] [-v]"""
import argparse, importlib, json, multiprocessing, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)


def load(prop):
    import common
    for f in sorted(os.listdir(HERE)):
        if f.startswith('spec_') and f.endswith('.py'):
            importlib.import_module(f[:-3])
    return common.UNITS.get(prop, [])


def work(a):
    prop, i, tier = a
    import run, traceback
    name, fn, cfg = load(prop)[i]
    t0 = time.time()
    if os.environ.get('PYVC_JITTER'):
        import random, z3
        rnd = random.Random(int(os.environ['PYVC_JITTER']) * 1000 + i)
        main.jitter = [z3.Int('jit%d' % rnd.randrange(10 ** 6)) + rnd.randrange(9) for _ in range(rnd.randrange(3000))]
        z3.set_param('smt.random_seed', rnd.randrange(1000))
    try:
        r = run.Run(name, fn, dict(cfg), seconds=cfg.get('seconds', 150 if tier == 'quick' else 500)).go()
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return dict(name=name, obligations=0, discharged=0, failed=[], backends={}, names=[], unsupported=['%s: engine: %s: %s at %s' % (name, type(e).__name__, str(e)[:200], ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:5]))],
                    functions=[], contracts=[], assumed=[], solver_time=0, paths=0, wall=time.time() - t0)
    be = {}
    for n, ok, b, s in r.obligations:
        be[b] = be.get(b, 0) + 1
    return dict(name=name, obligations=len(r.obligations), discharged=sum(1 for o in r.obligations if o[1]), names=sorted(set(o[0] for o in r.obligations)), failed=r.failed, unsupported=sorted(set(r.unsupported)), functions=sorted(r.functions),
                contracts=sorted(r.used_contracts), assumed=sorted(r.assumed), solver_time=r.solver_time + sum(o[3] for o in r.obligations), queries=r.queries, paths=r.paths, backends=be, wall=time.time() - t0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--unit', default='')
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    us = load(a.prop)
    todo = [(a.prop, i, a.tier) for i in range(len(us)) if a.unit in us[i][0]]
    t0 = time.time()
    with multiprocessing.get_context('fork').Pool(min(a.jobs, max(1, len(todo))), maxtasksperchild=1) as p:     # a process per unit: its solver state does not depend on the schedule
        res = p.map(work, todo, chunksize=1)
    un = lambda k: sorted(set(x for r in res for x in r[k]))
    be = {}
    for r in res:
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
    out = dict(prop=a.prop, obligations=sum(r['obligations'] for r in res), discharged=sum(r['discharged'] for r in res), failed=[f for r in res for f in r['failed']], unsupported=un('unsupported'),
               functions=un('functions'), contracts=un('contracts'), assumed=un('assumed'), backends=be, solver_time=round(sum(r['solver_time'] for r in res), 2), wall=round(time.time() - t0, 2),
               units=[dict(name=r['name'], obligations=r['obligations'], discharged=r['discharged'], paths=r['paths'], wall=round(r['wall'], 2), postconditions=r['names']) for r in res],
               extraction='the source text of /repo/modred/*.py is parsed on every run and executed statement by statement by pyvc/interp.py; nothing is dropped: an unknown construct makes the unit unsupported (bounded stand-in)')
    if a.out:
        json.dump(out, open(a.out, 'w'))
    print('%s: %d/%d obligations, %d failed, %d unsupported, %d units, %.1f s' % (a.prop, out['discharged'], out['obligations'], len(out['failed']), len(out['unsupported']), len(res), out['wall']))
    if a.v:
        for r in sorted(res, key=lambda r: -r['wall'])[:4]:
            print('  %.1fs %s paths=%d obl=%d' % (r['wall'], r['name'], r['paths'], r['obligations']))
    for f in out['failed'][:8]:
        print('FAILED', f['unit'], '|', f['name'], '|', f['detail'][:400], '|', f.get('path', [])[-4:] if a.v else '')
    for u in out['unsupported'][:12]:
        print('UNSUPPORTED', u)


if __name__ == '__main__':
    main()
