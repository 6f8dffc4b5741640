"""Run-time contracts of the parallel layer (C01 - C06)."""
import functools
import numpy as np
from base import *
import fakempi


# ------------------------------------------------------------------ C01
def cases_C01(rng, n):
    yield dict(P=3, n=3, w='zerotail', seed=1)
    yield dict(P=2, n=5, w='tiny', seed=1)
    for c in product_cases(rng, n, P=[1, 2, 3, 4, 5, 7, 8], n=[0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 20, 31],
                           w=['none', 'int', 'float', 'frac', 'huge', 'decades', 'hugeint', 'skewfirst', 'skewlast', 'zeros', 'zerotail', 'equal', 'tiny', 'allzero']):
        yield c


def check_C01(c):
    rng = np.random.default_rng(c['seed'])
    P, n = c['P'], c['n']
    par = fakempi.load(P, ranks=[0])[1][0].parallel
    tasks = [('t', int(rng.integers(5)), i) for i in range(n)]
    w = {'none': None, 'int': rng.integers(1, 9, n), 'float': rng.uniform(0.1, 5, n), 'zeros': rng.integers(0, 3, n),
         'equal': np.full(n, 3.0), 'allzero': np.zeros(n)}.get(c['w'], np.ones(n))
    if c['w'] == 'frac':
        w = rng.uniform(0, 1, n)
    if c['w'] == 'huge':
        w = rng.integers(1, 9, n) * 1e9 + rng.integers(0, 50, n)
    if c['w'] == 'hugeint':
        w = rng.integers(1, 9, n) * 10 ** rng.integers(0, 9, n)
    if c['w'] == 'decades':
        w = rng.uniform(1, 9, n) * 10. ** rng.integers(-9, 9, n)
    if n and c['w'] == 'skewfirst':
        w[0] = 50.
    if n and c['w'] == 'skewlast':
        w[-1] = 50.
    if n and c['w'] == 'zerotail':
        w[-(n // 2 + 1):] = 0
    if n and c['w'] == 'tiny':
        w[0] = 1e20
    warg = w if (w is None or c['seed'] % 2) else list(w)
    tcopy, wcopy = list(tasks), None if w is None else np.array(warg)
    got = par.find_assignments(tasks) if w is None else par.find_assignments(tasks, task_weights=warg)
    req(tasks == tcopy, 'the task list was modified')
    if w is not None:
        same(warg, wcopy, 'the weights')
    req(len(got) == P, '%d assignments for %d workers' % (len(got), P))
    flat = [t for g in got for t in g]
    req(flat == tasks, 'assignments put end to end are %r, tasks are %r' % (flat, tasks))
    lens = [len(g) for g in got]
    first_empty = lens.index(0) if 0 in lens else P
    req(all(k == 0 for k in lens[first_empty:]), 'an empty worker precedes a non-empty one: %r' % lens)
    ww = np.ones(n) if w is None else np.asarray(w, float)
    pos = 0
    for k in range(P):
        if pos >= n:
            break
        if k == P - 1:
            req(pos + lens[k] == n, 'the last worker does not take all that is left')
            break
        cs = np.cumsum(ww[pos:])
        d = np.abs(cs - ww[pos:].sum() / (P - k))
        req(lens[k] >= 1 and d[lens[k] - 1] <= d.min() + 1e-13 * n * cs[-1], 'worker %d: load is not the closest to an even share: %r' % (k, lens))
        pos += lens[k]


# ------------------------------------------------------------------ C02
IPS = ['real', 'cplx', 'wreal', 'wcplx', 'mixedint', 'mixedcplx']


def make_ip(rng, kind, n):
    if kind in ('wreal', 'wcplx'):
        W = weights(rng, n, '2d', kind == 'wcplx')[1]
    else:
        W = np.eye(n)
    if kind.startswith('mixed'):
        return W, (lambda a, b: np.vdot(a.a, b.a))
    if kind.endswith('cplx'):
        return W, (lambda a, b: complex(np.vdot(a.a, W.dot(b.a))))
    return W, (lambda a, b: float(np.vdot(a.a, W.dot(b.a)).real))


def vecset(rng, n, m, c):
    cplx, zeros = c['ip'].endswith('cplx'), c['zeros']
    X = rnd(rng, (n, m), cplx)
    if zeros:       # orthogonal pairs, zero vectors
        for j in range(m):
            if rng.random() < 0.3:
                X[:, j] = 0
            elif rng.random() < 0.4:
                X[:, j] = 0
                X[int(rng.integers(n)), j] = 1 + int(rng.integers(3))
    if not c['ip'].startswith('mixed'):
        X *= 10. ** c.get('sc', 0)
    return X


def mixed(c, X):
    """the vectors as a user's mixed collection: columns that are real (or
    integer) are kept in arrays of that type"""
    if not c['ip'].startswith('mixed'):
        return None
    for j in range(X.shape[1]):
        if (j + c['seed']) % 3 != 1:
            X[:, j] = np.round(X[:, j].real * 2) if c['ip'] == 'mixedint' else X[:, j].real
    if c['ip'] == 'mixedint':
        return lambda a: a.astype(int) if np.all(a == np.round(a)) else a
    return lambda a: np.array(a.real) if not np.any(a.imag) else a


def cases_par(rng, n):
    for c in product_cases(rng, n, P=[1, 2, 3, 4, 5, 6], m=[1, 2, 3, 4, 5, 7, 10, 13], k=[1, 2, 3, 5, 8, 11],
                           limit=[None, 1, 3, 4, 5, 7, 9, 12, 20], ip=IPS, nodes=[1, 1, 2, 3], zeros=[False, True],
                           sc=[0, 0, 0, -7, -4, 6], talk=[0, 0, 0, 1]):
        yield c


cases_C02 = cases_C03 = cases_C04 = cases_par


def space(ns, c, ip):
    return ns.vectorspace.VectorSpaceHandles(
        inner_product=ip, max_vecs_per_node=c['limit'], verbosity=c.get('talk', 0), print_interval=0 if c.get('talk') else 10)


def check_C02(c):
    rng = np.random.default_rng(c['seed'])
    cplx = c['ip'].endswith('cplx')
    n = 4
    X, Y = vecset(rng, n, c['m'], c), vecset(rng, n, c['k'], c)
    kX, kY = mixed(c, X), mixed(c, Y)
    W, ip = make_ip(rng, c['ip'], n)
    world, nss = collect(c['P'], c['nodes'])
    log = []
    hs = [(handles(X, log, kind=kX), handles(Y, log, kind=kY)) for _ in range(c['P'])]
    single = c['seed'] % 5 == 0

    def go(r):
        a, b = hs[r]
        if single and len(a) == 1:
            a = a[0]
        if single and len(b) == 1:
            b = b[0]
        return space(nss[r], c, ip).compute_inner_product_array(a, b)
    with quiet():
        res = world.run(go)
    for r in range(c['P']):
        close(res[r], H(X).dot(W).dot(Y), 'inner product array on rank %d of %d' % (r, c['P']), scale=max(1e-300, np.abs(X).max() * np.abs(Y).max() * n))
        same(res[r], res[0], 'array of rank 0 compared to rank %d: it' % r)
        for hl, A in zip(hs[r], (X, Y)):
            for j, h in enumerate(hl):
                same(h.vec.a, A[:, j], 'a vector')
    req(not log, 'a handle was put to')


def check_C03(c):
    rng = np.random.default_rng(c['seed'])
    cplx = c['ip'].endswith('cplx')
    n = 4
    m = c['m'] + (c['k'] - 1) * (c['seed'] % 3 == 0)
    X = vecset(rng, n, m, c)
    kX = mixed(c, X)
    W, ip = make_ip(rng, c['ip'], n)
    world, nss = collect(c['P'], c['nodes'])
    log = []
    hs = [handles(X, log, kind=kX) for _ in range(c['P'])]
    single = m == 1 and c['seed'] % 2

    def go(r):
        return space(nss[r], c, ip).compute_symm_inner_product_array(hs[r][0] if single else hs[r])
    with quiet():
        res = world.run(go)
    for r in range(c['P']):
        close(res[r], H(X).dot(W).dot(X), 'symmetric inner product array on rank %d of %d' % (r, c['P']), scale=max(1e-300, np.abs(X).max() ** 2 * n))
        close(res[r], H(res[r]), 'conjugate transpose of the symmetric inner product array', tol=1e-14, scale=max(1e-300, np.abs(X).max() ** 2 * n))
        same(res[r], res[0], 'array of rank 0 compared to rank %d: it' % r)
        for j, h in enumerate(hs[r]):
            same(h.vec.a, X[:, j], 'a vector')
    req(not log, 'a handle was put to')


def check_C04(c):
    rng = np.random.default_rng(c['seed'])
    cplx = c['ip'].endswith('cplx')
    n, m, k, P = 4, c['m'], c['k'], c['P']
    X = vecset(rng, n, m, c)
    kX = mixed(c, X)
    C = rnd(rng, (m, k), cplx)
    if c['ip'] == 'mixedint':
        C = rng.integers(-3, 4, (m, k))
    if c['zeros']:
        C[rng.random((m, k)) < 0.3] = 0
    idx = selections(rng, k, ['none', 'all', 'rev', 'one', 'dup', 'range', 'array'][c['seed'] % 7])
    E = X.dot(sel_cols(C, idx))
    world, nss = collect(P, c['nodes'])
    logs = [[] for _ in range(P)]
    wrap = V if kX is None else np.asarray         # plain arrays as vectors too
    hs = [(handles(X, logs[r], 'basis', kX, wrap), [Handle(None, logs[r], ('sum', j)) for j in range(E.shape[1])]) for r in range(P)]
    Cs = [np.array(C) for _ in range(P)]
    single = c['seed'] % 4 == 0

    def go(r):
        b, s = hs[r]
        if single and len(b) == 1:
            b = b[0]
        if single and len(s) == 1:
            s = s[0]
        kw = {} if idx is None else dict(coeff_array_col_indices=idx)
        space(nss[r], c, None).lin_combine(s, b, Cs[r], **kw)
    with quiet():
        world.run(go)
    for r in range(P):
        same(Cs[r], C, 'coefficient array')
        for j, h in enumerate(hs[r][0]):
            same(np.asarray(h.vec), X[:, j], 'a basis vector')
    puts = [e for lg in logs for e in lg]
    req(all(nm[0] == 'sum' for nm, _ in puts), 'a basis handle was put to')
    for j in range(E.shape[1]):
        mine = [v for nm, v in puts if nm == ('sum', j)]
        req(len(mine) == 1, 'output %d was put %d times' % (j, len(mine)))
        close(mine[0], E[:, j], 'linear combination %d' % j, scale=max(1e-300, np.abs(X).max() * np.abs(C).max() * m))
    # refusals
    for bad in (0, 1):
        lg = []

        def gobad(r):
            b = handles(X, lg, 'basis')
            s = [Handle(None, lg, ('sum', j)) for j in range(E.shape[1])]
            C2 = C[:-1] if bad == 0 else sel_cols(C, idx)
            if bad == 1:
                s = s + [Handle(None, lg, ('sum', -1))]
            if bad == 0 and C2.shape[0] == 0:
                raise ValueError
            if bad == 1:
                return space(nss[r], c, None).lin_combine(s, b, C2)
            kw = {} if idx is None else dict(coeff_array_col_indices=idx)
            return space(nss[r], c, None).lin_combine(s, b, C2, **kw)
        if bad == 1 and P > 1:
            continue
        try:
            with quiet():
                world.run(gobad)
        except fakempi.Deadlock:
            raise Violation('inconsistent sizes lead to a deadlock')
        except Exception:
            req(not lg, 'inconsistent sizes are refused only after a put')
        else:
            raise Violation('inconsistent numbers of %s are accepted' % ('coefficients' if bad == 0 else 'outputs'))


# ------------------------------------------------------------------ C05
def cases_C05(rng, n):
    for P in list(range(1, 14)) + [16, 17]:
        for what in ('reduce', 'allreduce', 'scan', 'exscan'):
            for op in ('cat', 'mat', 'sum', 'arr', 'maxloc', 'minloc', 'none'):
                if op in ('arr', 'minloc', 'mat', 'none') and P > 7:
                    continue
                yield dict(P=P, what=what, op=op, root=int(rng.integers(P)), seed=int(rng.integers(2 ** 31)))


def check_C05(c):
    rng = np.random.default_rng(c['seed'])
    P, what, op = c['P'], c['what'], c['op']
    world, nss = fakempi.load(P)
    vals = [chr(97 + r) for r in range(P)]
    f = lambda a, b: a + b
    if op == 'mat':
        vals = [tuple(map(tuple, rng.integers(-3, 4, (2, 2)).tolist())) for _ in range(P)]
        f = lambda a, b: tuple(tuple(sum(a[i][k] * b[k][j] for k in (0, 1)) for j in (0, 1)) for i in (0, 1))
    if op == 'none':        # None is a contribution, and a result, like any other
        vals = [None if rng.random() < 0.6 else chr(97 + r) for r in range(P)]
        f = lambda a, b: b if a is None else a
    if op == 'sum':
        vals = [int(rng.integers(100)) for _ in range(P)]
    if op == 'arr':
        vals = [rng.integers(0, 100, (2, 3)) for _ in range(P)]
    if op in ('maxloc', 'minloc'):
        vals = [int(rng.integers(4)) for _ in range(P)]
    keep = [np.array(v) if op == 'arr' else v for v in vals]

    def go(r):
        cc = nss[r].parallel.custom_comm
        MPI = nss[r].MPI
        kw = {}
        if op in ('cat', 'mat', 'none'):
            kw['op'] = f
        elif op in ('maxloc', 'minloc'):
            kw['op'] = getattr(MPI, op.upper())
        if what == 'reduce':
            kw['root'] = c['root']
        return getattr(cc, what)(vals[r], **kw)
    with quiet():
        res = world.run(go)
    if op in ('maxloc', 'minloc'):
        f = getattr(nss[0].MPI, op.upper())
        items = [(v, r) for r, v in enumerate(keep)]
    else:
        items = keep

    def fold(a, b):
        return functools.reduce(f, items[a:b])
    for r in range(P):
        exp = {'reduce': lambda: fold(0, P) if r == c['root'] else None, 'allreduce': lambda: fold(0, P),
               'scan': lambda: fold(0, r + 1), 'exscan': lambda: fold(0, r) if r > 0 else None}[what]()
        ok = np.array_equal(res[r], exp) if exp is not None and res[r] is not None else res[r] is exp
        req(ok, '%s (%s) on rank %d of %d gives %r, expected %r' % (what, op, r, P, res[r], exp))
    for r in range(P):
        req(np.array_equal(vals[r], keep[r]), 'contribution of rank %d was modified' % r)


# ------------------------------------------------------------------ C06
def cases_C06(rng, n):
    for P in (0, 1, 2, 3, 5):
        for k in range(6):
            yield dict(P=P, k=k, seed=int(rng.integers(2 ** 31)))


def check_C06(c):
    rng = np.random.default_rng(c['seed'])
    P = c['P']
    if P == 0:
        world, nss = fakempi.load(1, mpi=False)
        P = 1
    else:
        world, nss = fakempi.load(P)
    val = [None, 0, False, [], 'x', np.arange(4.)][c['k']]
    args = [(), (1,), (1, 2), ([3],), (None,), (np.arange(3.), 'a')][c['k']]
    kw = [{}, {'a': 1}, {'b': 2, 'c': 3}, {}, {'q': None}, {'func2': 1}][c['k']]
    # keyword names that an implementation might take for itself
    for nm in ('root', 'comm', 'tag', 'default', 'verbosity', 'rank', 'timeout', 'args', 'kwargs', 'op', 'vals', 'outputs', 'output_channel', 'dest', 'barrier', 'copy'):
        if rng.random() < .3:
            kw = dict(kw, **{nm: int(rng.integers(3))})
    for what in ('call_and_bcast', 'call_from_rank_zero', 'bcast'):
        calls = []

        def go(r):
            par = nss[r].parallel
            req(par.is_rank_zero() == (r == 0), 'is_rank_zero is wrong on rank %d' % r)
            req(par.get_rank() == r and par.get_num_procs() == P and par.get_num_MPI_workers() == P, 'rank or number of workers is wrong')
            req(bool(par.is_distributed()) == (P > 1), 'is_distributed is wrong')

            def fun(*a, **k):
                calls.append((r, a, dict(k)))
                return val
            if what == 'bcast':
                return par.bcast(val if r == 0 else 'wrong')
            return getattr(par, what)(fun, *args, **kw)
        with quiet():
            res = world.run(go)
        for r in range(P):
            exp = None if (what == 'call_from_rank_zero' and r > 0) else val
            req(type(res[r]) == type(exp) and np.array_equal(np.asarray(res[r], object), np.asarray(exp, object)),
                '%s gives %r on rank %d of %d, expected %r' % (what, res[r], r, P, exp))
        if what != 'bcast':
            req(len(calls) == 1 and calls[0][0] == 0, '%s calls the function on ranks %r' % (what, [x[0] for x in calls]))
            a, k = calls[0][1:]
            req(len(a) == len(args) and all(x is y for x, y in zip(a, args)) and set(k) == set(kw) and all(k[x] is kw[x] for x in kw),
                '%s does not pass the arguments on' % what)
