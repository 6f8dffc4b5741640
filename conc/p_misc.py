"""Run-time contracts of utilities, handles, persistence and purity (C16 - C22)."""
import copy, os, pickle, shutil, tempfile
import numpy as np
import scipy.linalg
from base import *
import fakempi


# ------------------------------------------------------------------ C16
def cases_C16(rng, n):
    for c in product_cases(rng, n, what=['el', 'bl'], r=[1, 2, 3, 5, 8], k=[1, 2, 3, 6, 9], p=[1, 2, 3], q=[1, 2, 4], last=[0, 1, 1], cplx=[0, 1], shape=['flat', 'col', 'row', 'list']):
        yield c


def check_C16(c):
    rng = np.random.default_rng(c['seed'])
    u = serial().util
    r, k = c['r'], c['k']
    if c['what'] == 'el':
        a, b = rnd(rng, (r,), c['cplx']), rnd(rng, (k,), c['cplx'])
        if c['seed'] % 7 == 3:      # integer column, real row and the other way round
            a = rng.integers(-9, 9, r)
        elif c['seed'] % 7 == 4:
            b = rng.integers(-9, 9, k)
        elif c['seed'] % 7 == 5:    # real and complex
            b = rnd(rng, (k,), True)
        if c['seed'] % 2 and b.dtype == a.dtype:
            b[0] = a[-1]
        if not c['last']:
            k = r
            b = np.zeros(r)
        un = np.concatenate((a, b[1:]))
        E = np.array([[un[i + j] for j in range(k)] for i in range(r)])
        sh = {'flat': lambda x: x, 'col': lambda x: x[:, None], 'row': lambda x: x[None, :], 'list': lambda x: x}[c['shape']]
        aa, bb = sh(a), sh(b)
        if c['shape'] == 'list':
            aa = a.tolist()
        a0, b0 = np.array(aa), np.array(bb)
        Hk = u.Hankel(aa, bb) if c['last'] else u.Hankel(aa)
        same(Hk, E, 'Hankel array (compared to its specification), it')
        same(aa, a0, 'the column')
        same(bb, b0, 'the row')
    else:
        fc = [rnd(rng, (c['p'], c['q']), c['cplx']) for _ in range(r)]
        lr = [rnd(rng, (c['p'], c['q']), c['cplx']) for _ in range(k)]
        if c['seed'] % 5 == 1:
            fc = [rng.integers(-9, 9, (c['p'], c['q'])) for _ in range(r)]
        elif c['seed'] % 5 == 2:
            lr = [rng.integers(-9, 9, (c['p'], c['q'])) for _ in range(k)]
        elif c['seed'] % 5 == 3:
            fc[0] = rng.integers(-9, 9, (c['p'], c['q']))
        if not c['last']:
            k = r
            lr = [np.zeros((c['p'], c['q']))] * r
        un = fc + lr[1:]
        E = np.block([[un[i + j] for j in range(k)] for i in range(r)])
        f0, l0 = [x.copy() for x in fc], [x.copy() for x in lr]
        fl, ll = list(fc), list(lr)
        Hk = u.Hankel_chunks(fl, ll) if c['last'] else u.Hankel_chunks(fl)
        close(Hk, E, 'block Hankel array', tol=0)
        req(len(fl) == r and all(x is y for x, y in zip(fl, fc)), 'the list of first blocks was modified')
        req(len(ll) == k and all(x is y for x, y in zip(ll, lr)), 'the list of last blocks was modified')
        for x, y in zip(fc + lr, f0 + l0):
            same(x, y, 'a block')


# ------------------------------------------------------------------ C17
def cases_C17(rng, n):
    for c in product_cases(rng, n, what=['bt', 'bt', 'btw', 'lsim', 'impulse', 'drss', 'rss'], n=[1, 2, 3, 5, 8], p=[1, 2, 3], q=[1, 2, 4], cplx=[0, 1], order=['none', 'full', 'less', 'one'], nt=[1, 2, 5, 12], ic=[0, 1]):
        yield c


def check_C17(c):
    rng = np.random.default_rng(c['seed'])
    u = serial().util
    n, p, q = c['n'], c['p'], c['q']
    if c['what'] in ('drss', 'rss'):
        st = np.random.get_state()
        np.random.seed(c['seed'] % 2 ** 31)
        A, B, C = getattr(u, c['what'])(n, q, p)
        np.random.set_state(st)
        req(A.shape == (n, n) and B.shape == (n, q) and C.shape == (p, n), 'dimensions %r %r %r' % (A.shape, B.shape, C.shape))
        e = np.linalg.eigvals(A)
        req((np.abs(e) < 1).all() if c['what'] == 'drss' else (e.real < 1e-6).all(), 'unstable: %r' % e)
        req(all(np.isrealobj(x) for x in (A, B, C)), 'not real')
        return
    if c['what'] == 'btw':
        # weakly coupled states: Hankel singular values of very different size
        n = min(n, 3)
        s = int(rng.integers(1, 5)) if n < 3 else int(rng.integers(1, 3))
        A = np.diag(rng.permutation(np.array([.8, -.5, .3])[:n]))
        b, g = 10. ** (-s * np.arange(n)), 10. ** (-s * np.arange(n))
        B, C = b[:, None] * rng.uniform(1, 2, (n, 1)), g[None, :] * rng.uniform(1, 2, (1, n))
        Wc, Wo = scipy.linalg.solve_discrete_lyapunov(A, B.dot(B.T)), scipy.linalg.solve_discrete_lyapunov(A.T, C.T.dot(C))
        hsv = np.sqrt(np.sort(np.abs(np.linalg.eigvals(Wc.dot(Wo))))[::-1])
        out = u.balanced_truncation(A, B, C, order=n, return_sing_vals=True)
        req(out[0].shape == (n, n) and out[1].shape == (n, 1) and out[2].shape == (1, n), 'order %r of the reduced system, %d requested' % (out[0].shape, n))
        req(len(u.balanced_truncation(A, B, C)[0]) == n, 'default order')
        close(out[3], hsv, 'Hankel singular values', tol=1e-6)
        req((np.abs(out[3] / hsv - 1) < 1e-2)[hsv > 1e-6 * hsv[0]].all(), 'Hankel singular values %r, expected %r' % (out[3], hsv))
        for j in range(4):
            close(out[2].dot(np.linalg.matrix_power(out[0], j)).dot(out[1]), C.dot(np.linalg.matrix_power(A, j)).dot(B), 'impulse response of the balanced system', tol=1e-6)
        return
    cplx = c['cplx'] if c['what'] == 'bt' else 0
    Q = orth(rng, n, n, cplx)
    A = Q.dot(np.diag(rng.uniform(0.3, 0.9, n))).dot(H(Q)).dot(orth(rng, n, n, cplx))
    A = A * min(1.0, 0.9 / np.abs(np.linalg.eigvals(A)).max())
    B, C = rnd(rng, (n, q), cplx), rnd(rng, (p, n), cplx)
    keep = A.copy(), B.copy(), C.copy()
    if c['what'] == 'bt':
        Wc = scipy.linalg.solve_discrete_lyapunov(A, B.dot(H(B)))
        Wo = scipy.linalg.solve_discrete_lyapunov(H(A), H(C).dot(C))
        hsv = np.sqrt(np.sort(np.abs(np.linalg.eigvals(Wc.dot(Wo))))[::-1])
        if hsv[-1] < 1e-4 * hsv[0] or np.linalg.cond(Wc) > 1e7 or np.linalg.cond(Wo) > 1e7:
            raise Skip()
        if n > 1 and (hsv[1:] / hsv[:-1]).max() > 0.98:
            raise Skip()
        r = {'none': None, 'full': n, 'less': max(1, n - 1), 'one': 1}[c['order']]
        rv = c['seed'] % 2
        out = u.balanced_truncation(A, B, C, **dict({} if r is None else dict(order=r), **(dict(return_sing_vals=True) if rv else {})))
        req(len(out) == 3 + rv, 'returns %d values' % len(out))
        r = n if r is None else r
        Ar, Br, Cr = out[:3]
        if rv:
            close(out[3], hsv, 'Hankel singular values', tol=1e-6)
        req(Ar.shape == (r, r) and Br.shape == (r, q) and Cr.shape == (p, r), 'dimensions of the reduced system')
        # the balanced system is unique up to a unitary diagonal when the hsv are distinct: compare invariants
        full = u.balanced_truncation(A, B, C)
        Wcb = scipy.linalg.solve_discrete_lyapunov(full[0], full[1].dot(H(full[1])))
        Wob = scipy.linalg.solve_discrete_lyapunov(H(full[0]), H(full[2]).dot(full[2]))
        close(Wcb, np.diag(hsv), 'controllability Gramian', tol=1e-5)
        close(Wob, np.diag(hsv), 'observability Gramian', tol=1e-5)
        close(Ar, full[0][:r, :r], 'leading part of the balanced A', tol=1e-6)
        close(Br, full[1][:r], 'leading part of the balanced B', tol=1e-6)
        close(Cr, full[2][:, :r], 'leading part of the balanced C', tol=1e-6)
        for s in range(4):
            close(full[2].dot(np.linalg.matrix_power(full[0], s)).dot(full[1]), C.dot(np.linalg.matrix_power(A, s)).dot(B), 'impulse response of the balanced system', tol=1e-5, scale=np.abs(C).max() * np.abs(B).max() * n)
    elif c['what'] == 'lsim':
        uu = rnd(rng, (max(c['nt'], 2), q))
        x = rnd(rng, (n,)) if c['ic'] else np.zeros(n)
        u0, x0 = uu.copy(), x.copy()
        y = u.lsim(A, B, C, uu, initial_condition=x) if c['ic'] else u.lsim(A, B, C, uu)
        same(uu, u0, 'inputs')
        same(x, x0, 'initial condition')
        ys = []
        z = x
        for t in range(uu.shape[0]):
            ys.append(C.dot(z))
            z = A.dot(z) + B.dot(uu[t])
        close(y, np.array(ys), 'simulated outputs', scale=1 + np.abs(ys).max())
    else:
        nt = c['nt']
        M = u.impulse(A, B, C, num_time_steps=nt)
        close(M, np.array([C.dot(np.linalg.matrix_power(A, s)).dot(B) for s in range(nt)]), 'impulse response')
        M = u.impulse(A, B, C)
        close(M, np.array([C.dot(np.linalg.matrix_power(A, s)).dot(B) for s in range(M.shape[0])]), 'impulse response', scale=np.abs(C).max() * np.abs(B).max())
    for x, y in zip((A, B, C), keep):
        same(x, y, 'a system array')


# ------------------------------------------------------------------ C18
def cases_C18(rng, n):
    yield dict(what='rt', kind='int', shape=[3, 4], order='C', delim=None, seed=1)
    yield dict(what='rt', kind='complex64', shape=[3, 4], order='C', delim=None, seed=1)
    yield dict(what='rt', kind='complex', shape=[3, 4], order='F', delim=None, seed=1)
    for c in product_cases(rng, n, what=['rt', 'rt', 'rt', 'sig', 'multi', 'bad'], kind=['float', 'complex', 'int', 'float32', 'complex64', 'extreme', 'bool', 'cextreme'],
                           shape=[[1], [5], [1, 1], [1, 4], [4, 1], [3, 5], [6, 2]], order=['C', 'F', 'T', 'view', 'list', 'ro'], delim=[None, ',', ';', '\t', ' ']):
        yield c


def make_array(rng, kind, shape):
    a = rng.standard_normal(shape)
    if kind.startswith('complex') or kind == 'cextreme':
        a = a + 1j * rng.standard_normal(shape)
    if kind in ('extreme', 'cextreme'):
        s = 10.0 ** rng.integers(-300, 300, shape)
        a = (a * s) if kind == 'extreme' else (a.real * s + 1j * a.imag)
        a = np.where(rng.random(shape) < 0.2, 0.0, a)
    if kind == 'int':
        return rng.integers(-10 ** 9, 10 ** 9, shape)
    if kind == 'bool':
        return rng.random(shape) < 0.5
    if kind == 'float32':
        return a.astype(np.float32)
    if kind == 'complex64':
        return a.astype(np.complex64)
    return a


def check_C18(c):
    rng = np.random.default_rng(c['seed'])
    u = serial().util
    d = tempfile.mkdtemp(prefix='verif_c18_')
    try:
        f = os.path.join(d, 'a.txt')
        kw = {} if c['delim'] is None else dict(delimiter=c['delim'])
        shape = tuple(c['shape'])
        a = make_array(rng, c['kind'], shape)
        cplx = np.iscomplexobj(a)
        if c['what'] == 'rt':
            arg = a
            if c['order'] == 'F':
                arg = np.asfortranarray(a)
            elif c['order'] == 'T':
                arg = np.ascontiguousarray(a.T).T
            elif c['order'] == 'view' and a.ndim == 2:
                big = np.zeros((shape[0] * 2, shape[1] * 3), a.dtype)
                big[::2, 1::3] = a
                arg = big[::2, 1::3]
            elif c['order'] == 'view':
                big = np.zeros(shape[0] * 2, a.dtype)
                big[::2] = a
                arg = big[::2]
            elif c['order'] == 'list':
                arg = a.tolist()
            k0 = copy.deepcopy(arg)
            u.save_array_text(arg, f, **kw)
            same(arg, k0, 'the array')
            b = u.load_array_text(f, is_complex=True, **kw) if cplx else u.load_array_text(f, **kw)
            exp = a if a.ndim == 2 else a[:, None]
            req(b.dtype == (complex if cplx else float), 'loaded array is of type %s' % b.dtype)
            req(b.shape == exp.shape and np.array_equal(b, exp.astype(b.dtype)), 'array loaded differs from array saved: %r, %r' % (b, exp))
        elif c['what'] == 'bad':
            for nd in (3, 4):
                try:
                    u.save_array_text(np.zeros((2,) * nd), f)
                except Exception:
                    pass
                else:
                    raise Violation('an array of %d dimensions is saved' % nd)
            np.savetxt(f, rng.standard_normal((3, 3)))
            try:
                u.load_array_text(f, is_complex=True)
            except ValueError:
                pass
            else:
                raise Violation('complex data is loaded from an odd number of columns')
            np.savetxt(f, rng.standard_normal((3, 1)))
            try:
                u.load_signals(f)
            except ValueError:
                pass
            else:
                raise Violation('signals are loaded from one column')
        elif c['what'] == 'sig':
            nt, k = int(rng.integers(1, 6)), int(rng.integers(1, 5))
            raw = rng.standard_normal((nt, k + 1))
            u.save_array_text(raw, f, **kw)
            t, s = u.load_signals(f, **kw)
            req(np.array_equal(t, raw[:, 0]) and np.array_equal(s, raw[:, 1:]) and s.shape == (nt, k), 'signals differ from file')
        else:
            nt, k, nf = int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
            t0 = np.sort(rng.standard_normal(nt))
            raws, paths = [], []
            names = rng.permutation(nf)
            for i in range(nf):
                raws.append(rng.standard_normal((nt, k)))
                paths.append(os.path.join(d, 's%d' % names[i]))
                u.save_array_text(np.column_stack((t0, raws[-1])), paths[-1], **kw)
            t, s = u.load_multiple_signals(paths, **kw)
            req(np.array_equal(t, t0) and np.array_equal(s, np.array(raws)), 'signals differ from files')
            if nf > 1:
                j = int(rng.integers(1, nf))
                for other in (np.column_stack((t0, raws[j][:, :1], raws[j])), np.column_stack((t0, raws[j][:, :1])) if k > 1 else None,
                              np.column_stack((np.full(1, t0[0]), raws[j][:1])) if nt > 1 else None, np.column_stack((t0, raws[j]))[:-1] if nt > 1 else None):
                    if other is None:
                        continue
                    u.save_array_text(other, paths[j], **kw)
                    try:
                        u.load_multiple_signals(paths, **kw)
                    except ValueError:
                        pass
                    else:
                        raise Violation('files of different sizes are loaded together')
                u.save_array_text(np.column_stack((t0 + 1.0, raws[j])), paths[j], **kw)
                try:
                    u.load_multiple_signals(paths, **kw)
                except ValueError:
                    pass
                else:
                    raise Violation('files with different times are accepted')
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ C19
def cases_C19(rng, n):
    for c in product_cases(rng, n, kinds=['mem', 'text', 'pickle', 'mix'], cplx=[0, 1], steps=[6, 15, 30]):
        yield c


def check_C19(c):
    rng = np.random.default_rng(c['seed'])
    ns = serial()
    d = tempfile.mkdtemp(prefix='verif_c19_')
    try:
        shape = (2, 3)
        new = lambda: rnd(rng, shape, c['cplx']).round(3)
        pool = [new() for _ in range(3)]        # repeated values: equal contents in different handles
        val = lambda: pool[int(rng.integers(3))].copy() if rng.random() < 0.6 else new()
        store = {}                                # location -> stored vector
        hs = []                                   # (handle, location, base index or None, scale)

        def mk(base, scale):
            kind = c['kinds'] if c['kinds'] != 'mix' else ['mem', 'text', 'pickle'][int(rng.integers(3))]
            bh = None if base is None else hs[base][0]
            if kind == 'mem':
                loc = ('mem', len(hs))
                v = val()
                h = ns.vectors.VecHandleInMemory(vec=v, base_vec_handle=bh, scale=scale)
                store[loc] = v.copy()
            else:
                loc = (kind, int(rng.integers(4)))
                path = os.path.join(d, '%s_%d' % loc)
                if kind == 'text':
                    h = ns.vectors.VecHandleArrayText(path, base_vec_handle=bh, scale=scale, is_complex=bool(c['cplx']))
                else:
                    h = ns.vectors.VecHandlePickle(path, base_vec_handle=bh, scale=scale)
                if loc not in store:
                    v = val()
                    h.put(v)
                    store[loc] = v.copy()
            hs.append((h, loc, base, scale))

        def exp(i):
            h, loc, base, scale = hs[i]
            v = store[loc]
            if base is not None:
                v = v - exp(base)
            return v if scale is None else v * scale
        for i in range(7):
            base = None if i < 2 or rng.random() < 0.3 else int(rng.integers(i))
            scale = None if rng.random() < 0.5 else (float(rng.integers(1, 4)) if rng.random() < 0.7 else 0.0)
            mk(base, scale)
        for _ in range(c['steps']):
            i = int(rng.integers(len(hs)))
            if rng.random() < 0.3:
                v = val()
                v0 = v.copy()
                hs[i][0].put(v)
                same(v, v0, 'the vector put')
                store[hs[i][1]] = v0
            else:
                close(hs[i][0].get(), exp(i), 'vector got from handle %d (base %r, scale %r)' % (i, hs[i][2], hs[i][3]), scale=100)
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ C20
def cases_C20(rng, n):
    for c in product_cases(rng, n, nd=[1, 2, 3, 4], cplx=[0, 1, 2, 3], uni=[0, 1], desc=[0, 0, 1], order=['C', 'F', 'rev', 'view'], gs=[0, 0, -12, -6, 6], off=[0, 0, 1], near=[0, 0, 0, 1]):
        yield c


def check_C20(c):
    rng = np.random.default_rng(c['seed'])
    vm = serial().vectors
    shape = tuple(int(rng.integers(2, 6)) for _ in range(c['nd']))
    grids = [np.linspace(0, rng.uniform(1, 3), s) if c['uni'] else np.cumsum(rng.uniform(0.1, 1, s)) for s in shape]
    if c['near']:      # almost uniform
        grids = [np.linspace(0, 1, s) + 1e-6 * rng.uniform(-1, 1, s) for s in shape]
    if c['off']:
        grids = [g + 7.0 for g in grids]
    if c['desc']:
        grids[0] = grids[0][::-1]
    grids = [layout(g[:, None], c['order'])[:, 0] * 10. ** c['gs'] for g in grids]
    a, b = rnd(rng, shape, c['cplx'] & 1), rnd(rng, shape, c['cplx'] & 2)
    a, b = layout(a, 'F' if c['order'] == 'rev' else c['order']), layout(b, 'C' if c['order'] == 'rev' else c['order'])
    a0, b0 = a.copy(), b.copy()
    ws = []
    for g in grids:
        w = np.zeros(len(g))
        w[:-1] += np.diff(g) / 2
        w[1:] += np.diff(g) / 2
        ws.append(w)
    T = ws[0]
    for w in ws[1:]:
        T = np.multiply.outer(T, w)
    ip = vm.InnerProductTrapz(*grids)
    e = (a.conj() * b * T).sum()
    sc = np.abs(a).max() * np.abs(b).max() * np.abs(T).sum()
    sc = sc * 1e-4
    close(ip(a, b), e, 'inner product', scale=sc)
    close(ip.inner_product(a, b), e, 'inner product', scale=sc)
    close(ip(b, a), np.conj(e), 'inner product, arguments exchanged', scale=sc)
    perm = list(rng.permutation(c['nd']))
    close(vm.InnerProductTrapz(*[grids[k] for k in perm])(a.transpose(perm), b.transpose(perm)), e, 'inner product, dimensions permuted', scale=sc)
    same(a, a0, 'a vector')
    same(b, b0, 'a vector')
    big = np.zeros(shape[:-1] + (shape[-1] + 1,))
    bads = [lambda: ip(big, b), lambda: ip(a, big), lambda: vm.InnerProductTrapz(), lambda: vm.InnerProductTrapz(*([[0., 1., 2.]] + grids[1:])),
            lambda: vm.InnerProductTrapz(*(grids + [3])), lambda: ip(a.ravel()[:-1], b)]
    if c['nd'] > 1 and shape[0] != shape[-1]:
        bads.append(lambda: ip(a.T, b.T))
    for k, f in enumerate(bads):
        try:
            f()
        except Exception:
            pass
        else:
            raise Violation('mismatched vectors or grids are accepted (%d)' % k)
    u, v = rnd(rng, (5,), c['cplx'] & 1), rnd(rng, (5,), c['cplx'] & 2)
    close(vm.inner_product_array_uniform(u, v), H(u).dot(v), 'uniform inner product', scale=100)


# ------------------------------------------------------------------ C21
def cases_C21(rng, n):
    for c in product_cases(rng, n, cls=['POD', 'BPOD', 'DMD', 'TLS', 'ERA', 'LTIA', 'LTIH'], io=['mem', 'mem', 'text'], m=[1, 2, 4], cplx=[0, 1], P=[1, 2, 3]):
        yield c


PUTS = {
    'POD': [('put_eigvals', ['eigvals']), ('put_eigvecs', ['eigvecs']), ('put_correlation_array', ['correlation_array']), ('put_proj_coeffs', ['proj_coeffs']),
            ('put_decomp', ['eigvals', 'eigvecs'])],
    'BPOD': [('put_sing_vals', ['sing_vals']), ('put_L_sing_vecs', ['L_sing_vecs']), ('put_R_sing_vecs', ['R_sing_vecs']), ('put_Hankel_array', ['Hankel_array']),
             ('put_direct_proj_coeffs', ['direct_proj_coeffs']), ('put_adjoint_proj_coeffs', ['adjoint_proj_coeffs']), ('put_decomp', ['sing_vals', 'L_sing_vecs', 'R_sing_vecs'])],
    'DMD': [('put_eigvals', ['eigvals']), ('put_R_low_order_eigvecs', ['R_low_order_eigvecs']), ('put_L_low_order_eigvecs', ['L_low_order_eigvecs']),
            ('put_correlation_array_eigvals', ['correlation_array_eigvals']), ('put_correlation_array_eigvecs', ['correlation_array_eigvecs']),
            ('put_correlation_array', ['correlation_array']), ('put_cross_correlation_array', ['cross_correlation_array']), ('put_spectral_coeffs', ['spectral_coeffs']),
            ('put_proj_coeffs', ['proj_coeffs', 'adv_proj_coeffs']),
            ('put_decomp', ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals', 'correlation_array_eigvecs'])],
    'TLS': [('put_eigvals', ['eigvals']), ('put_R_low_order_eigvecs', ['R_low_order_eigvecs']), ('put_L_low_order_eigvecs', ['L_low_order_eigvecs']),
            ('put_sum_correlation_array_eigvals', ['sum_correlation_array_eigvals']), ('put_sum_correlation_array_eigvecs', ['sum_correlation_array_eigvecs']),
            ('put_proj_correlation_array_eigvals', ['proj_correlation_array_eigvals']), ('put_proj_correlation_array_eigvecs', ['proj_correlation_array_eigvecs']),
            ('put_correlation_array', ['correlation_array']), ('put_cross_correlation_array', ['cross_correlation_array']), ('put_adv_correlation_array', ['adv_correlation_array']),
            ('put_sum_correlation_array', ['sum_correlation_array']), ('put_proj_correlation_array', ['proj_correlation_array']), ('put_spectral_coeffs', ['spectral_coeffs']),
            ('put_proj_coeffs', ['proj_coeffs', 'adv_proj_coeffs']),
            ('put_decomp', ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
                            'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs'])],
    'ERA': [('put_model', ['A', 'B', 'C']), ('put_decomp', ['sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'Hankel_array', 'Hankel_array2']), ('put_sing_vals', ['sing_vals'])],
    'LTI': [('put_A_reduced', ['A_reduced']), ('put_B_reduced', ['B_reduced']), ('put_C_reduced', ['C_reduced']), ('put_model', ['A_reduced', 'B_reduced', 'C_reduced'])],
}
GETS = {
    'POD': [('get_correlation_array', ['correlation_array']), ('get_proj_coeffs', ['proj_coeffs']), ('get_decomp', ['eigvals', 'eigvecs'])],
    'BPOD': [('get_Hankel_array', ['Hankel_array']), ('get_direct_proj_coeffs', ['direct_proj_coeffs']), ('get_adjoint_proj_coeffs', ['adjoint_proj_coeffs']),
             ('get_decomp', ['sing_vals', 'L_sing_vecs', 'R_sing_vecs'])],
    'DMD': [('get_correlation_array', ['correlation_array']), ('get_cross_correlation_array', ['cross_correlation_array']), ('get_spectral_coeffs', ['spectral_coeffs']),
            ('get_proj_coeffs', ['proj_coeffs', 'adv_proj_coeffs']),
            ('get_decomp', ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals', 'correlation_array_eigvecs'])],
    'TLS': [('get_correlation_array', ['correlation_array']), ('get_cross_correlation_array', ['cross_correlation_array']), ('get_adv_correlation_array', ['adv_correlation_array']),
            ('get_sum_correlation_array', ['sum_correlation_array']), ('get_proj_correlation_array', ['proj_correlation_array']), ('get_spectral_coeffs', ['spectral_coeffs']),
            ('get_proj_coeffs', ['proj_coeffs', 'adv_proj_coeffs']),
            ('get_decomp', ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
                            'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs'])],
}
VALS = {'eigvals', 'sing_vals', 'correlation_array_eigvals', 'sum_correlation_array_eigvals', 'proj_correlation_array_eigvals'}


def check_C21(c):
    rng = np.random.default_rng(c['seed'])
    n, m, cplx, P = 6, c['m'], c['cplx'], c['P']
    cls = c['cls']
    if cls in ('ERA',):
        P, cplx = 1, 0
    if cls == 'LTIA':
        P = 1
    if c['io'] == 'text':
        cplx = 0
    ip = (lambda a, b: complex(np.vdot(a.a, b.a))) if cplx else (lambda a, b: float(np.vdot(a.a, b.a)))
    Xs = rnd(rng, (n, m), cplx)
    Ys = rnd(rng, (n, m), cplx)
    d = tempfile.mkdtemp(prefix='verif_c21_')
    dest = (lambda k: os.path.join(d, k)) if c['io'] == 'text' else (lambda k: ('dest', k))
    mem = {}
    plog = []
    iscplx = set()

    def build(ns, r):
        def put(a, de):
            plog.append((r, de, np.array(a)))
            mem[de] = np.array(a)
        # the stored form of values is a column, as text files give it back
        def get(src):
            plog.append((r, 'get', src))
            a = mem[src]
            return a[:, None] if a.ndim == 1 and c['seed'] % 2 else a
        kw = dict(verbosity=0)
        if c['io'] == 'mem':
            kw.update(put_array=put)
            if cls in ('POD', 'BPOD', 'DMD', 'TLS'):
                kw.update(get_array=get)
        elif cls in ('POD', 'BPOD', 'DMD', 'TLS'):
            # a text file does not say whether its numbers are complex, its reader has to
            kw.update(get_array=lambda src: ns.util.load_array_text(src, is_complex=src in iscplx))
        return kw
    world, nss = collect(P)
    logs = [[] for _ in range(P)]
    key = 'LTI' if cls.startswith('LTI') else cls

    def fresh(ns, r):
        kw = build(ns, r)
        if cls == 'POD':
            return ns.pod.PODHandles(inner_product=ip, **kw)
        if cls == 'BPOD':
            return ns.bpod.BPODHandles(inner_product=ip, **kw)
        if cls == 'DMD':
            return ns.dmd.DMDHandles(inner_product=ip, **kw)
        if cls == 'TLS':
            return ns.dmd.TLSqrDMDHandles(inner_product=ip, **kw)
        if cls == 'ERA':
            return ns.era.ERA(**kw)
        if cls == 'LTIA':
            kw.pop('verbosity')
            return ns.ltigalerkinproj.LTIGalerkinProjectionArrays(Xs, **kw)
        return ns.ltigalerkinproj.LTIGalerkinProjectionHandles(ip, handles(Xs), **kw)

    def use(obj, hx, hy, r, tag, restored=False):
        """modes and coefficients from a decomposition, original or restored"""
        out = {}
        lg = logs[r]

        def modes(nm, f, k, **kw):
            o = outs(lg, (tag, nm), k)
            f(list(range(k)), o, **kw)
        if cls == 'POD':
            modes('m', obj.compute_modes, len(obj.eigvals), vec_handles=hx)
            out['pc'] = obj.compute_proj_coeffs()
        if cls == 'BPOD':
            modes('d', obj.compute_direct_modes, len(obj.sing_vals), direct_vec_handles=hx)
            modes('a', obj.compute_adjoint_modes, len(obj.sing_vals), adjoint_vec_handles=hy)
            out['dp'], out['ap'] = obj.compute_direct_proj_coeffs(), obj.compute_adjoint_proj_coeffs()
        if cls in ('DMD', 'TLS'):
            k = len(obj.eigvals)
            modes('e', obj.compute_exact_modes, k, adv_vec_handles=hy)
            modes('p', obj.compute_proj_modes, k, vec_handles=hx)
            modes('j', obj.compute_adjoint_modes, k, vec_handles=hx)
            out['spec'] = obj.compute_spectrum()
            out['pc'], out['apc'] = obj.compute_proj_coeffs()
        return out

    def go(r):
        ns = nss[r]
        obj = fresh(ns, r)
        hx, hy = handles(Xs), handles(Ys)
        if cls == 'POD':
            obj.compute_decomp(hx)
        elif cls == 'BPOD':
            obj.compute_decomp(hx, hy)
        elif cls in ('DMD', 'TLS'):
            obj.compute_decomp(hx, adv_vec_handles=hy)
        elif cls == 'ERA':
            obj.compute_model(rnd(np.random.default_rng(3), (8 + 4 * m, 2, 1)), 1 if m == 1 else 2)
        elif cls == 'LTIA':
            obj.compute_model(rnd(np.random.default_rng(5), (n, m)), rnd(np.random.default_rng(6), (n, m)), rnd(np.random.default_rng(7), (m, m)))
        else:
            obj.compute_model(handles(rnd(np.random.default_rng(5), (n, m))), handles(rnd(np.random.default_rng(6), (n, m))), list(rnd(np.random.default_rng(7), (m, m))))
        first = use(obj, hx, hy, r, 1)
        snap = {}
        for meth, attrs in PUTS[key]:
            for a in attrs:
                snap[a] = np.array(getattr(obj, a))
        for meth, attrs in PUTS[key]:
            start = len(plog)
            ns.parallel.barrier()
            getattr(obj, meth)(*[dest(meth + a) for a in attrs])
            ns.parallel.barrier()
            if c['io'] == 'mem' and r == 0:
                mine = plog[start:]
                req(all(e[0] == 0 for e in mine), '%s puts on ranks %r' % (meth, [e[0] for e in mine]))
                req(len(mine) == len(attrs), '%s puts %d arrays' % (meth, len(mine)))
                for a in attrs:
                    hit = [e for e in mine if e[1] == dest(meth + a)]
                    req(len(hit) == 1, '%s puts %d arrays to the destination of %s' % (meth, len(hit), a))
                    same(hit[0][2], snap[a], '%s: what was put to the destination of %s, it' % (meth, a))
            if c['io'] == 'text' and r == 0:
                for a in attrs:
                    v = np.loadtxt(dest(meth + a), ndmin=2)
                    if np.iscomplexobj(snap[a]):
                        v = v.view(complex)
                        iscplx.add(dest(meth + a))
                    close(v, snap[a] if snap[a].ndim == 2 else snap[a][:, None], '%s: file of %s' % (meth, a), tol=1e-14)
            ns.parallel.barrier()
        for a in snap:
            same(getattr(obj, a), snap[a], a)
        if key not in GETS:
            return None
        re = fresh(ns, r)
        for meth, attrs in GETS[key]:
            pm = meth.replace('get_', 'put_')
            getattr(re, meth)(*[dest(pm + a) for a in attrs])
            for a in attrs:
                got = getattr(re, a)
                e = snap[a]
                if a in VALS:
                    req(np.asarray(got).shape == e.shape, '%s restores %s with shape %r, not %r' % (meth, a, np.asarray(got).shape, e.shape))
                got = np.asarray(got)
                req(e.ndim < 2 or got.shape == e.shape, '%s restores %s with shape %r, not %r' % (meth, a, got.shape, e.shape))
                close(got.reshape(e.shape) if got.size == e.size else got, e, '%s: %s' % (meth, a), tol=1e-14)
        # other gets do not disturb what was restored before
        for a in dict(GETS[key])['get_decomp']:
            close(np.asarray(getattr(re, a)), snap[a], 'restored ' + a, tol=1e-14)
        second = use(re, hx, hy, r, 2, True)
        for k in first:
            close(second[k], first[k], 'restored object: ' + k, tol=1e-10, scale=np.abs(first[k]).max() + 1e-12)
        return None
    try:
        with quiet():
            world.run(go)
        puts = [e for lg in logs for e in lg]
        for nm, v in puts:
            if nm[0][0] == 1:
                other = [w for nm2, w in puts if nm2 == ((2, nm[0][1]), nm[1])]
                if key in GETS:
                    req(len(other) == 1, 'restored object puts mode %r %d times' % (nm, len(other)))
                    close(other[0], v, 'mode %r of the restored object' % (nm,), tol=1e-9)
        if c['io'] == 'mem':
            req(all(e[0] == 0 for e in plog), 'arrays are got or put on ranks other than zero')
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ C22
def cases_C22(rng, n):
    for c in product_cases(rng, n, what=sorted(PURE), cplx=[0, 1], w=['none', '1d', '2d'], view=[0, 1], seq=[0, 1], odd=[0, 0, 1, 2, 3], fort=[0, 0, 1]):
        yield c


def _sys(rng, n, cplx):
    Q = orth(rng, n, n, cplx)
    return Q.dot(np.diag(np.linspace(0.2, 0.8, n))).dot(H(Q)), rnd(rng, (n, 2), cplx), rnd(rng, (3, n), cplx)


def _dmd(name):
    def f(ns, rng, c, D):
        X, Y, w = D['X'], D['Y'], D['w']
        return dict(fn=getattr(ns.dmd, name), args=[X], kw=dict(adv_vecs=None if c['seq'] else Y, mode_indices=D['idx'], inner_product_weights=w))
    return f


PURE = {
    'pods': lambda ns, rng, c, D: dict(fn=ns.pod.compute_POD_arrays_snaps_method, args=[D['X']], kw=dict(mode_indices=D['idx'], inner_product_weights=D['w'])),
    'podd': lambda ns, rng, c, D: dict(fn=ns.pod.compute_POD_arrays_direct_method, args=[D['X']], kw=dict(mode_indices=D['idx'], inner_product_weights=D['w'])),
    'bpod': lambda ns, rng, c, D: dict(fn=ns.bpod.compute_BPOD_arrays, args=[D['X'], D['Y']], kw=dict(direct_mode_indices=D['idx'], adjoint_mode_indices=D['idx'], inner_product_weights=D['w'])),
    'dmds': _dmd('compute_DMD_arrays_snaps_method'), 'dmdd': _dmd('compute_DMD_arrays_direct_method'),
    'tlss': _dmd('compute_TLSqrDMD_arrays_snaps_method'), 'tlsd': _dmd('compute_TLSqrDMD_arrays_direct_method'),
    'era': lambda ns, rng, c, D: dict(fn=ns.era.ERA(verbosity=0).compute_model, args=[rnd(rng, (15, 2, 2)), 2], kw={}),
    'era2': lambda ns, rng, c, D: dict(fn=ns.era.compute_ERA_model, args=[rnd(rng, (12, 2)), 2], kw={}),
    'sampled': lambda ns, rng, c, D: dict(fn=ns.era.make_sampled_format, args=[np.arange(6) * 0.5 + (3. if c['seq'] else 0.), rnd(rng, (6, 2, 2))], kw={}),
    'okid': lambda ns, rng, c, D: dict(fn=ns.okid.OKID, args=[rnd(rng, (2, 30)), rnd(rng, (3, 30)), 3], kw={}),
    'gal': lambda ns, rng, c, D: dict(fn=lambda a, b, x, y, z, w: ns.ltigalerkinproj.LTIGalerkinProjectionArrays(a, adjoint_basis_vecs=None if c['seq'] else b, inner_product_weights=w).compute_model(x, y, z),
                                      args=[D['X'], D['Y'], D['Y'], D['X'][:, :2], rnd(rng, (2, 3)), D['w']], kw={}),
    'derivs': lambda ns, rng, c, D: dict(fn=ns.ltigalerkinproj.compute_derivs_arrays, args=[D['X'], D['Y'], 0.5], kw={}),
    'svd': lambda ns, rng, c, D: dict(fn=ns.util.svd, args=[D['X']], kw={}),
    'eigh': lambda ns, rng, c, D: dict(fn=ns.util.eigh, args=[D['W']], kw=dict(is_positive_definite=bool(c['seq']))),
    'eigl': lambda ns, rng, c, D: dict(fn=ns.util.eig_biorthog, args=[D['S']], kw=dict(scale_choice='left')),
    'eigr': lambda ns, rng, c, D: dict(fn=ns.util.eig_biorthog, args=[D['S']], kw=dict(scale_choice='right')),
    'bt': lambda ns, rng, c, D: dict(fn=ns.util.balanced_truncation, args=list(_sys(rng, 4, c['cplx'])), kw=dict(order=2)),
    'lsim': lambda ns, rng, c, D: dict(fn=ns.util.lsim, args=list(_sys(rng, 4, 0)) + [rnd(rng, (7, 2))], kw=dict(initial_condition=rnd(rng, (4,)))),
    'impulse': lambda ns, rng, c, D: dict(fn=ns.util.impulse, args=list(_sys(rng, 4, 0)), kw=dict(num_time_steps=4)),
    'Hankel': lambda ns, rng, c, D: dict(fn=ns.util.Hankel, args=[rnd(rng, (4,), c['cplx']), rnd(rng, (3,), c['cplx'])], kw={}),
    'chunks': lambda ns, rng, c, D: dict(fn=ns.util.Hankel_chunks, args=[[rnd(rng, (2, 2)) for _ in range(3)], [rnd(rng, (2, 2)) for _ in range(4)]], kw={}),
    'ipblock': lambda ns, rng, c, D: dict(fn=ns.util.InnerProductBlock(np.vdot), args=[[rnd(rng, (3,)) for _ in range(3)], [rnd(rng, (3,)) for _ in range(2)]], kw={}),
    'ips': lambda ns, rng, c, D: dict(fn=lambda a, b, w: (lambda v: (v.compute_inner_product_array(a, b), v.compute_symm_inner_product_array(a)))(ns.vectorspace.VectorSpaceArrays(weights=w)), args=[D['X'], D['Y'], D['w']], kw={}),
    'lin': lambda ns, rng, c, D: dict(fn=lambda a, b, w, i: ns.vectorspace.VectorSpaceArrays(weights=w).lin_combine(a, b, coeff_array_col_indices=i), args=[D['X'], rnd(rng, (3, 3)), D['w'], D['idx']], kw={}),
    'rows': lambda ns, rng, c, D: dict(fn=lambda a, b: (ns.util.atleast_2d_row(a), ns.util.atleast_2d_col(a), ns.util.sum_arrays(a, a), ns.util.flatten_list(b), ns.util.make_iterable(b), ns.util.smart_eq(a, a)), args=[rnd(rng, (3,)), [[1], [2, 3]]], kw={}),
    'save': lambda ns, rng, c, D: dict(fn=lambda a: _save(ns, a), args=[D['X']], kw={}),
    'trapz': lambda ns, rng, c, D: dict(fn=lambda g, h, a, b: ns.vectors.InnerProductTrapz(g, h)(a, b), args=[np.array([0., 1, 3]), np.array([0., .5, 1, 4]), rnd(rng, (3, 4), c['cplx']), rnd(rng, (3, 4), c['cplx'])], kw={}),
}


def _save(ns, a):
    d = tempfile.mkdtemp(prefix='verif_c22_')
    try:
        ns.util.save_array_text(a, os.path.join(d, 'x'))
        return np.loadtxt(os.path.join(d, 'x'))
    finally:
        shutil.rmtree(d)


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [np.asarray(x)]


def check_C22(c):
    rng = np.random.default_rng(c['seed'])
    ns = serial()
    n = 5
    w, W = weights(rng, n, c['w'], c['cplx'])
    big = rnd(rng, (n, 4), c['cplx'])
    X, Y = (big[:, :3], big[:, 1:]) if c['view'] else (big[:, :3].copy(), rnd(rng, (n, 3), c['cplx']))
    S = big[:4] + np.diag(3.0 * np.arange(4)) if not c['view'] else big[1:5]
    D = dict(X=X, Y=Y, w=w, W=(W + H(W)) / 2, S=S, idx=[0] if c['seed'] % 2 else None)
    call = PURE[c['what']](ns, rng, c, D)
    if c['odd']:            # entries that some code might be tempted to tidy up
        for x in flat(call['args']):
            if x.dtype.kind in 'fc' and x.ndim == 2 and x.base is None and x is not D['W']:
                x[int(rng.integers(x.shape[0])), int(rng.integers(x.shape[1]))] = [1e-305, -0.0, 1e-17][c['odd'] - 1]
        if D['w'] is None:
            off = D['W'] - np.diag(np.diag(D['W']))
            D['W'] += (off == 0) * [1e-305, -0.0, 1e-17][c['odd'] - 1]
            np.fill_diagonal(D['W'], np.arange(n) + 1.)
    if c['fort'] and not c['view']:      # column-major arrays, which libraries can use as they are
        def cols(x):
            if isinstance(x, list):
                return [cols(y) for y in x]
            return np.asfortranarray(x) if isinstance(x, np.ndarray) and x.ndim == 2 else x
        call['args'] = cols(call['args'])
    a0, k0 = copy.deepcopy(call['args']), copy.deepcopy(call['kw'])
    res = []
    for _ in range(2):
        st = np.random.get_state()
        with quiet():
            res.append(call['fn'](*call['args'], **call['kw']))
        for x, y in zip(flat(call['args']), flat(a0)):
            req(x.dtype == y.dtype and x.shape == y.shape and (x is y or np.array_equal(x, y) and (x.dtype == object or x.tobytes() == y.tobytes())), 'an argument of %s was modified' % c['what'])
        for k in k0:
            for x, y in zip(flat(call['kw'][k]), flat(k0[k])):
                req(x.shape == y.shape and np.array_equal(x, y), 'argument %s of %s was modified' % (k, c['what']))
    for x, y in zip(flat(res[0]), flat(res[1])):
        if x.dtype != object:
            req(x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-8), 'a second call of %s with the same arguments gives another result' % c['what'])
    # results do not share memory with the arguments (a later change of one must not show in the other)
