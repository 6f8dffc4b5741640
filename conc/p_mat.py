"""Run-time contracts of the array computations (C07 - C15)."""
import os, tempfile
import numpy as np
import scipy.linalg
from base import *
import fakempi

WK = ['none', '1d', '2d']
SEL = ['none', 'all', 'rev', 'one', 'dup', 'range', 'array', 'empty']


# ------------------------------------------------------------------ C07
def cases_C07(rng, n):
    for c in product_cases(rng, n, n=[1, 2, 3, 5, 8], m=[1, 2, 4], k=[1, 2, 3, 6], w=WK + ['col', 'row', 'list1d', 'list2d', 'cplx2d', 'cplx1d'],
                           cplx=[0, 1, 2, 3], sel=SEL, sc=[0, 0, -8, 8], lay=LAY, ints=[0, 0, 0, 1]):
        yield c


def check_C07(c):
    rng = np.random.default_rng(c['seed'])
    ns = serial()
    n, m, k = c['n'], c['m'], c['k']
    kind = {'col': '1d', 'row': '1d', 'list1d': '1d', 'list2d': '2d', 'cplx2d': '2d', 'cplx1d': '1d'}.get(c['w'], c['w'])
    w, W = weights(rng, n, kind, c['w'] == 'cplx2d')
    if c['w'] == 'cplx1d':
        w = w + 1j * rng.standard_normal(n)
        W = np.diag(w)
    arg = w
    if c['w'] == 'col':
        arg = w[:, None]
    if c['w'] == 'row':
        arg = w[None, :]
    if c['w'].startswith('list'):
        arg = w.tolist()
    X, Y = rnd(rng, (n, m), c['cplx'] & 1), rnd(rng, (n, k), c['cplx'] & 2)
    C = rnd(rng, (m, k), c['cplx'] & 1)
    X, Y, C = (layout(a * 10. ** c['sc'], c['lay']) for a in (X, Y, C))
    if c['ints']:
        X, Y = (np.round(a / 10. ** c['sc'] * 3).astype(int) if not np.iscomplexobj(a) else a for a in (X, Y))
    Xc, Yc, Cc = X.copy(), Y.copy(), C.copy()
    vs = ns.vectorspace.VectorSpaceArrays(weights=arg)
    if n == 1 and kind == '2d':
        W = np.asarray(arg).reshape(1, 1)
    close(vs.compute_inner_product_array(X, Y), H(X).dot(W).dot(Y), 'inner product array')
    close(vs.compute_symm_inner_product_array(Y), H(Y).dot(W).dot(Y), 'symmetric inner product array')
    idx = selections(rng, k, c['sel'])
    E = X.dot(sel_cols(C, idx))
    kw = {} if idx is None else dict(coeff_array_col_indices=idx)
    close(vs.lin_combine(X, C, **kw), E, 'linear combination')
    close(vs.lin_combine(X, C.tolist(), **kw), E, 'linear combination')
    for a, b in ((X, Xc), (Y, Yc), (C, Cc)):
        same(a, b, 'an argument')
    # small imaginary parts count like any other
    K = np.triu(rnd(rng, (n, n)), 1) * 10. ** -rng.integers(6, 14)
    Xr, Yr = X.real, Y.real
    g = ns.vectorspace.VectorSpaceArrays(weights=np.eye(n) + 1j * (K - K.T)).compute_inner_product_array(Xr, Yr)
    close(g.real, Xr.T.dot(Yr), 'inner product array (real part)')
    close(np.asarray(g).imag, Xr.T.dot(K - K.T).dot(Yr), 'inner product array (small imaginary part)', scale=max(np.abs(K).max() * np.abs(Xr).max() * np.abs(Yr).max(), 1e-300) * n)


# ------------------------------------------------------------------ C08
def cases_C08(rng, n):
    for c in product_cases(rng, n, what=['svd', 'eigh', 'pd', 'eig', 'exact'], n=[1, 2, 3, 5, 8], m=[1, 2, 4, 7], cplx=[0, 1], atol=['default', 'none', 'mid', 'big', 'zero'],
                           rtol=['none', 'mid', 'mid2', 'tiny'], rank=['full', 'def'], scale=['left', 'right', 'LEFT'], sgn=['pos', 'mixed', 'noise', 'bigneg']):
        yield c


def expected_count(vals, atol, rtol):
    """number of leading entries (sorted by magnitude) to keep, with slack check"""
    v = np.abs(vals)
    keep = np.ones(len(v), bool)
    for t, x in ((atol, v), (rtol, v / v[0] if len(v) and v[0] > 0 else v)):
        if t is not None:
            if (np.abs(x - t) < 1e-3 * max(t, 1e-9)).any() and t > 1e-12:
                raise Skip()
            keep &= x > t
    return int(keep.sum())


def pick(vals, how, default):
    v = np.sort(np.abs(vals))[::-1]
    v = v[v > 1e-6]
    j = (len(v) - 1) // 2
    if how == 'none':
        return None
    if how == 'default':
        return default
    if how == 'zero':
        return 0.0
    if how == 'tiny':
        return 1e-9
    if how == 'big':
        return v[0] * 0.999
    if j + 1 < len(v):
        return float(np.sqrt(v[j] * v[j + 1])) if how == 'mid' else float(np.sqrt(v[0] * v[1]))
    return v[j] * 0.5


def exact_C08(c, rng, u):
    """values that equal a tolerance exactly (powers of two on a diagonal) are not kept"""
    n = c['n']
    v = 2.0 ** rng.integers(-4, 5, n)
    if c['sgn'] != 'pos':
        v *= np.where(rng.random(n) < 0.5, -1, 1)
    A = np.diag(v).astype(complex if c['cplx'] else float)
    svd = c['scale'] != 'left'
    if sorted(np.abs(np.linalg.svd(A)[1] if svd else np.linalg.eigh(A)[0])) != sorted(np.abs(v)):
        raise Skip()
    so = sorted(np.abs(v))[::-1]
    at = None if c['atol'] == 'none' else so[int(rng.integers(n))]
    rt = None if c['rtol'] == 'none' else so[int(rng.integers(n))] / so[0]
    neg = 0
    if svd:
        got = u.svd(A, atol=at, rtol=rt)[1]
    else:
        pd = c['rank'] == 'def'
        neg = -min(0, v.min()) if pd else 0
        got = u.eigh(A, atol=at, rtol=rt, is_positive_definite=pd)[0]
    exp = [x for x in so if (at is None or x > at) and (rt is None or x / so[0] > rt) and (neg == 0 or x > neg)]
    req(len(got) == len(exp), '%s keeps %d of %r, atol %r, rtol %r' % ('svd' if svd else 'eigh', len(got), v.tolist(), at, rt))
    close(np.abs(got), np.array(exp), 'kept values')


def check_C08(c):
    rng = np.random.default_rng(c['seed'])
    u = serial().util
    n, m = c['n'], c['m']
    if c['what'] == 'exact':
        return exact_C08(c, rng, u)
    k = n if c['what'] in ('eigh', 'pd') else min(n, m)
    mag = 3.0 * 0.6 ** np.arange(k) * rng.uniform(0.95, 1.05, k)
    nz = k
    if c['rank'] == 'def' and k > 1:
        nz = k - (k + 1) // 3
        mag[nz:] = 0
    rt = pick(mag / mag[0], c['rtol'], None)
    at = pick(mag, c['atol'], 1e-13)
    if nz < k and (at is None or at < 1e-12) and (rt is None):
        at = 1e-10 if at is not None and c['atol'] != 'zero' else at
    noisy = nz < k and (at is None or at < 1e-12) and (rt is None or rt < 1e-12)
    kw = dict(rtol=rt)
    if not (c['atol'] == 'default' and at == 1e-13):
        kw['atol'] = at
    if c['what'] == 'svd':
        A = orth(rng, n, k, c['cplx']).dot(np.diag(mag)).dot(H(orth(rng, m, k, c['cplx'])))
        A0 = A.copy()
        U, S, Vv = u.svd(A, **kw)
        same(A, A0, 'the array')
        q = len(S)
        if not noisy:
            req(q == expected_count(mag, at, rt), 'svd keeps %d of singular values %r (atol %r, rtol %r)' % (q, mag.tolist(), at, rt))
            close(S, mag[:q], 'singular values')
        req(U.shape == (n, q) and Vv.shape == (m, q), 'svd: shapes %r %r for %d values' % (U.shape, Vv.shape, q))
        close(H(U).dot(U), np.eye(q), 'U^* U')
        close(H(Vv).dot(Vv), np.eye(q), 'V^* V')
        close(A.dot(Vv), U * S, 'A V - U S', scale=5)
        close(H(A).dot(U), Vv * S, 'A^* U - V S', scale=5)
        req((np.diff(S) <= 1e-14).all(), 'singular values are not sorted')
    elif c['what'] in ('eigh', 'pd'):
        ev = mag.copy()
        pd = c['what'] == 'pd'
        if c['sgn'] == 'mixed' or (c['sgn'] == 'noise' and not pd):
            ev *= np.where(rng.random(k) < 0.5, -1, 1)
        if c['sgn'] == 'bigneg':
            ev[0] *= -1
        if pd and c['sgn'] in ('noise', 'pos'):
            nneg = k // 3 if c['sgn'] == 'noise' else 0
            if nneg:
                ev[-nneg:] = -np.abs(ev[-nneg:]) - 1e-3
        Q = orth(rng, n, n, c['cplx'])
        A = Q.dot(np.diag(ev)).dot(H(Q))
        A = (A + H(A)) / 2
        A0 = A.copy()
        E, Vv = u.eigh(A, is_positive_definite=True, **kw) if pd else u.eigh(A, **kw)
        same(A, A0, 'the array')
        q = len(E)
        so = ev[np.argsort(-np.abs(ev))]
        if not noisy:
            if pd:
                neg = -so.min() if so.min() < 0 else 0
                if nz < k and so.min() >= 0:
                    pass
                exp = [x for x in so if (at is None or abs(x) > at) and abs(x) > neg and (rt is None or abs(x) / abs(so[0]) > rt)]
                req(all(e > 0 for e in E), 'a kept eigenvalue is not positive: %r' % E.tolist())
            else:
                exp = so[:expected_count(so, at, rt)]
            req(q == len(exp), 'eigh keeps %d of eigenvalues %r (atol %r, rtol %r, pd %r)' % (q, so.tolist(), at, rt, pd))
            close(np.abs(E), np.abs(np.array(exp)) if q else np.zeros(0), 'eigenvalues')
        req(Vv.shape == (n, q), 'eigh: shape %r for %d values' % (Vv.shape, q))
        close(H(Vv).dot(Vv), np.eye(q), 'V^* V')
        close(A.dot(Vv), Vv * E, 'A V - V E', scale=5)
        req((np.diff(np.abs(E)) <= 1e-12).all(), 'eigenvalues are not sorted by magnitude')
    else:
        A = rnd(rng, (n, n), c['cplx']) + (np.diag(3. * np.arange(n)))
        A0 = A.copy()
        ev, vv = np.linalg.eig(A)
        if np.linalg.cond(vv) > 1e5:
            raise Skip()
        E, R, L = u.eig_biorthog(A, scale_choice=c['scale'])
        same(A, A0, 'the array')
        close(A.dot(R), R * E, 'A R - R E', scale=np.abs(A).max() * np.abs(R).max() * n)
        close(H(L).dot(A), (H(L).T * E).T, 'L^* A - E L^*', scale=np.abs(A).max() * np.abs(L).max() * n)
        close(H(L).dot(R), np.eye(n), 'L^* R', tol=1e-7)
        other = R if c['scale'].lower() == 'left' else L
        close(np.linalg.norm(other, axis=0), np.ones(n), 'norms of the vectors that are not rescaled')
        for bad in ('both', ''):
            try:
                u.eig_biorthog(A, scale_choice=bad)
            except ValueError:
                pass
            else:
                raise Violation('scale choice %r is accepted' % bad)


# ------------------------------------------------------------------ data for POD, BPOD, DMD
def spectrum(rng, k):
    return 2.0 * 0.7 ** np.arange(k) * rng.uniform(0.97, 1.03, k)


def tolerances(c, vals):
    """keyword arguments and expected count for values vals (sorted)"""
    v = np.asarray(vals)
    kw = {}
    keep = len(v)
    mid = len(v) // 2
    if c['tol'] in ('atol', 'both') and len(v) > 1:
        kw['atol'] = float(np.sqrt(v[mid] * v[mid - 1]))
        keep = min(keep, mid)
    if c['tol'] in ('rtol', 'both') and len(v) > 2:
        kw['rtol'] = float(np.sqrt(v[1] * v[2]) / v[0]) if c['tol'] == 'both' else float(np.sqrt(v[-1] * v[-2]) / v[0])
        keep = min(keep, 2 if c['tol'] == 'both' else len(v) - 1)
    if c['tol'] == 'atolnone':
        kw['atol'] = None
    return kw, keep


def space_ip(rng, kind, n, cplx):
    w, W = weights(rng, n, kind, cplx)
    if cplx:
        return w, W, (lambda a, b: complex(np.vdot(a.a, W.dot(b.a))))
    return w, W, (lambda a, b: float(np.vdot(a.a, W.dot(b.a)).real))


def run_handles(c, make, go):
    """runs go(ns, rank, extra) on every rank; returns the result of rank 0 after
    checking that all ranks agree"""
    world, nss = collect(c['P'], c.get('nodes', 1))
    ex = [make(r) for r in range(c['P'])]
    with quiet():
        res = world.run(lambda r: go(nss[r], r, ex[r]))
    return res, ex


def merge_modes(ex, key, q, n=0):
    """modes put by any rank; checks that each is put once"""
    out = []
    for j in range(q):
        mine = [v for e in ex for nm, v in e['log'] if nm == (key, j)]
        req(len(mine) == 1, '%s mode handle %d was put %d times' % (key, j, len(mine)))
        out.append(mine[0])
    return np.array(out).T if out else np.zeros((n, 0))


def agree(res, what):
    for r in res[1:]:
        for k in res[0]:
            if res[0][k] is not None:
                same(r[k], res[0][k], '%s on rank 0 differs from another rank, it' % k)


# ------------------------------------------------------------------ C09
def cases_C09(rng, n):
    for c in product_cases(rng, n, meth=['snaps', 'direct', 'handles'], n=[2, 3, 5, 8], m=[1, 2, 3, 5, 7], w=WK, cplx=[0, 1], rank=['full', 'def'],
                           tol=['default', 'atol', 'rtol', 'both', 'atolnone'], sel=SEL, P=[1, 1, 2, 3], limit=[None, 3, 6], sc=[1, 1, .02, 50], lay=LAY):
        yield c


def pod_relations(X, W, E, U, q, K=None):
    K0 = H(X).dot(W).dot(X)
    req(E.shape == (q,), 'POD eigenvalues have shape %r, %d expected to be kept' % (E.shape, q))
    req(U.shape == (X.shape[1], q), 'POD eigenvectors have shape %r' % (U.shape,))
    if K is not None:
        close(K, K0, 'correlation array')
    close(H(U).dot(U), np.eye(q), 'orthonormality of the eigenvectors')
    close(K0.dot(U), U * E, 'eigenvector equation', scale=np.abs(K0).max())
    req((np.diff(E) <= 1e-12).all() and (E > 0).all(), 'eigenvalues are not positive and decreasing')


def check_C09(c):
    rng = np.random.default_rng(c['seed'])
    n, m, cplx = c['n'], c['m'], c['cplx']
    k = min(n, m)
    if c['rank'] == 'def' and k > 1:
        k -= 1
    w, W, ip = space_ip(rng, c['w'], n, cplx)
    sv = spectrum(rng, k)
    sv = sv * c['sc']
    X = layout(with_spectrum(rng, n, m, sv, W, cplx), c['lay'])
    ev = sv ** 2
    kw, q = tolerances(c, sv if c['meth'] == 'direct' else ev)
    if k < m and 'atol' in kw and kw['atol'] is None or (k < m and not kw):
        kw['rtol'] = 1e-9      # rank deficient: leave rounding noise out
    if k < m and 'atol' not in kw and 'rtol' not in kw:
        kw['atol'] = 1e-9
    idx = selections(rng, q, c['sel'])
    X0 = X.copy()
    with quiet():
        if c['meth'] == 'snaps':
            r = serial().pod.compute_POD_arrays_snaps_method(X, mode_indices=idx, inner_product_weights=w, **kw)
            E, U, modes, pc, K = r.eigvals, r.eigvecs, r.modes, r.proj_coeffs, r.correlation_array
        elif c['meth'] == 'direct':
            r = serial().pod.compute_POD_arrays_direct_method(X, mode_indices=idx, inner_product_weights=w, **kw)
            E, U, modes, pc, K = r.eigvals, r.eigvecs, r.modes, r.proj_coeffs, None
        else:
            nidx = len(idx) if idx is not None else q
            if idx is None:
                idx2 = list(range(q))
            else:
                idx2 = idx

            def make(r):
                log = []
                return dict(log=log, v=handles(X, log, 'x'), o=outs(log, 'm', nidx))

            def go(ns, r, e):
                P = ns.pod.PODHandles(inner_product=ip, max_vecs_per_node=c['limit'], verbosity=0)
                if c['seed'] % 5 == 1:   # other tolerances first; the decomposition alone, or everything, again
                    P.compute_decomp(e['v'], rtol=.5)
                    P.compute_proj_coeffs()
                if c['seed'] % 10 == 1:
                    P.compute_eigendecomp(**kw)
                    ret = P.eigvals, P.eigvecs
                else:
                    ret = P.compute_decomp(e['v'], **kw)
                req(ret[0] is P.eigvals and ret[1] is P.eigvecs or (np.array_equal(ret[0], P.eigvals) and np.array_equal(ret[1], P.eigvecs)), 'decomposition returned is not the one stored')
                if c['seed'] % 2:
                    P.compute_modes(idx2, e['o'])
                else:
                    P.compute_modes(idx2, e['o'], vec_handles=e['v'])
                pcs = P.compute_proj_coeffs()
                same(pcs, P.proj_coeffs, 'the stored projection coefficients')
                return dict(E=P.eigvals, U=P.eigvecs, pc=pcs, K=P.correlation_array)
            res, ex = run_handles(c, make, go)
            agree(res, 'POD')
            E, U, pc, K = (res[0][x] for x in ('E', 'U', 'pc', 'K'))
            modes = merge_modes(ex, 'm', nidx, X.shape[0])
            idx = idx2
    same(X, X0, 'the snapshots')
    pod_relations(X, W, E, U, q, K)
    full = X.dot(U) / np.sqrt(E)
    close(modes, sel_cols(full, idx), 'modes', tol=1e-7)
    close(H(full).dot(W).dot(full), np.eye(q), 'mode orthonormality', tol=1e-7)
    close(pc, H(full).dot(W).dot(X), 'projection coefficients', tol=1e-7, scale=np.abs(sv).max())


# ------------------------------------------------------------------ C10
def cases_C10(rng, n):
    for c in product_cases(rng, n, meth=['arrays', 'handles'], p=[1, 2, 3], q=[1, 2, 3], nd=[1, 2, 3, 4], na=[1, 2, 3, 5], n=[3, 4, 6], w=WK, cplx=[0, 1],
                           tol=['default', 'atol', 'rtol', 'both'], sel=SEL, P=[1, 1, 2, 3], limit=[None, 3], sc=[1, 1, .02, 50], lay=LAY):
        yield c


def impulse_data(rng, c):
    """direct A^k B and adjoint (A^+)^k C^+ snapshots; A^+ is the adjoint in the inner product"""
    n, cplx = c['n'], c['cplx']
    w, W, ip = space_ip(rng, c['w'], n, cplx)
    Q = orth(rng, n, n, cplx)
    A = Q.dot(np.diag(0.95 * 0.9 ** np.arange(n))).dot(H(orth(rng, n, n, cplx)))
    Aadj = np.linalg.solve(W, H(A).dot(W))
    B = rnd(rng, (n, c['q']), cplx)
    Cadj = rnd(rng, (n, c['p']), cplx)
    X, Y = [B], [Cadj]
    for _ in range(c['nd'] - 1):
        X.append(A.dot(X[-1]))
    for _ in range(c['na'] - 1):
        Y.append(Aadj.dot(Y[-1]))
    return w, W, ip, layout(np.hstack(X) * c['sc'], c['lay']), layout(np.hstack(Y), c['lay'])


def check_C10(c):
    rng = np.random.default_rng(c['seed'])
    w, W, ip, X, Y = impulse_data(rng, c)
    G = H(Y).dot(W).dot(X)
    sv = np.linalg.svd(G, compute_uv=False)
    kr = int((sv > 1e-7 * sv[0]).sum())
    if kr < len(sv) and sv[kr] > 1e-11 * sv[0]:
        raise Skip()
    if kr > 1 and np.min(sv[:kr - 1] / sv[1:kr]) < 1.05:
        raise Skip()
    sv = sv[:kr]
    kw, k = tolerances(c, sv)
    if 'atol' not in kw and 'rtol' not in kw:
        kw['rtol'] = 1e-9
    if 'rtol' not in kw and 'atol' in kw and kw['atol'] is None:
        kw['rtol'] = 1e-9
    di, ai = selections(rng, k, c['sel']), selections(rng, k, SEL[c['seed'] % len(SEL)])
    X0, Y0 = X.copy(), Y.copy()
    if c['meth'] == 'arrays':
        with quiet():
            r = serial().bpod.compute_BPOD_arrays(X, Y, num_inputs=c['q'], num_outputs=c['p'], direct_mode_indices=di, adjoint_mode_indices=ai, inner_product_weights=w, **kw)
        S, L, R, Hk, dm, am, dp, ap = (getattr(r, f) for f in ('sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'Hankel_array', 'direct_modes', 'adjoint_modes', 'direct_proj_coeffs', 'adjoint_proj_coeffs'))
    else:
        di = di if di is not None else list(range(k))
        ai = ai if ai is not None else list(range(k))

        def make(r):
            log = []
            return dict(log=log, x=handles(X, log, 'x'), y=handles(Y, log, 'y'), d=outs(log, 'd', len(di)), a=outs(log, 'a', len(ai)))

        def go(ns, r, e):
            B = ns.bpod.BPODHandles(inner_product=ip, max_vecs_per_node=c['limit'], verbosity=0)
            if c['seed'] % 5 == 1:       # other tolerances first; the decomposition alone, or everything, again
                B.compute_decomp(e['x'], e['y'], num_inputs=c['q'], num_outputs=c['p'], rtol=.5)
                B.compute_direct_proj_coeffs(), B.compute_adjoint_proj_coeffs()
            if c['seed'] % 10 == 1:
                B.compute_SVD(**kw)
                ret = B.sing_vals, B.L_sing_vecs, B.R_sing_vecs
            else:
                ret = B.compute_decomp(e['x'], e['y'], num_inputs=c['q'], num_outputs=c['p'], **kw)
            for x, y in zip(ret, (B.sing_vals, B.L_sing_vecs, B.R_sing_vecs)):
                same(x, y, 'returned decomposition')
            B.compute_direct_modes(di, e['d'], **({} if c['seed'] % 2 else dict(direct_vec_handles=e['x'])))
            B.compute_adjoint_modes(ai, e['a'], **({} if c['seed'] % 2 else dict(adjoint_vec_handles=e['y'])))
            dp, ap = B.compute_direct_proj_coeffs(), B.compute_adjoint_proj_coeffs()
            same(dp, B.direct_proj_coeffs, 'stored coefficients')
            same(ap, B.adjoint_proj_coeffs, 'stored coefficients')
            return dict(S=B.sing_vals, L=B.L_sing_vecs, R=B.R_sing_vecs, H=B.Hankel_array, dp=dp, ap=ap)
        res, ex = run_handles(c, make, go)
        agree(res, 'BPOD')
        S, L, R, Hk, dp, ap = (res[0][x] for x in ('S', 'L', 'R', 'H', 'dp', 'ap'))
        dm, am = merge_modes(ex, 'd', len(di), X.shape[0]), merge_modes(ex, 'a', len(ai), X.shape[0])
    same(X, X0, 'direct snapshots')
    same(Y, Y0, 'adjoint snapshots')
    close(Hk, G, 'Hankel array', tol=1e-7)
    req(S.shape == (k,), '%d singular values kept, %d expected' % (S.size, k))
    close(S, sv[:k], 'singular values', tol=1e-7)
    close(G.dot(R), L * S, 'H R - L S', tol=1e-6, scale=sv[0])
    close(H(G).dot(L), R * S, 'H^* L - R S', tol=1e-6, scale=sv[0])
    close(H(R).dot(R), np.eye(k), 'orthonormality of right singular vectors')
    close(H(L).dot(L), np.eye(k), 'orthonormality of left singular vectors')
    D, A = X.dot(R) / np.sqrt(S), Y.dot(L) / np.sqrt(S)
    close(dm, sel_cols(D, di), 'direct modes', tol=1e-7)
    close(am, sel_cols(A, ai), 'adjoint modes', tol=1e-7)
    amp = sv[0] / S.min() if k else 1
    close(H(A).dot(W).dot(D), np.eye(k), 'biorthonormality', tol=1e-9 * max(amp, 10))
    close(dp, H(A).dot(W).dot(X), 'direct projection coefficients', tol=1e-9 * max(amp, 10))
    close(ap, H(D).dot(W).dot(Y), 'adjoint projection coefficients', tol=1e-9 * max(amp, 10))


# ------------------------------------------------------------------ C11, C12
def cases_DMD(rng, n):
    for c in product_cases(rng, n, meth=['snaps', 'direct', 'handles'], n=[3, 5, 8], m=[1, 2, 3, 4, 6], w=WK, cplx=[0, 1], seq=[0, 1], rank=['full', 'def'],
                           tol=['default', 'atol', 'rtol', 'both', 'atolnone'], maxe=[None, None, 1, 2, 50], sel=SEL, P=[1, 1, 2, 3], limit=[None, 3], sc=[1, 1, .02, 50], lay=LAY):
        yield c


cases_C11 = cases_C12 = cases_DMD


def dmd_data(rng, c, tls):
    n, m, cplx = c['n'], c['m'], c['cplx']
    w, W, ip = space_ip(rng, c['w'], n, cplx)
    A = orth(rng, n, n, cplx).dot(np.diag(rng.uniform(0.7, 1.2, n))).dot(H(orth(rng, n, n, cplx)))
    k = min(n, m)
    if c['rank'] == 'def' and k > 1:
        k -= 1
    if c['seq']:
        v = rnd(rng, (n, 1), cplx)
        # a sequence within an invariant-ish space of dimension k when rank deficient
        if k < min(n, m):
            Q = orth(rng, n, k, cplx)
            A = Q.dot(orth(rng, k, k, cplx).dot(np.diag(rng.uniform(0.7, 1.2, k)))).dot(H(Q))
            v = Q.dot(rnd(rng, (k, 1), cplx))
        cols = [v]
        for _ in range(m):
            cols.append(A.dot(cols[-1]))
        F = np.hstack(cols)
        if tls and c['rank'] == 'full':
            F = F + 0.3 * rnd(rng, F.shape, cplx)
        F = layout(F * c['sc'], c['lay'])
        return w, W, ip, F, F[:, :-1], F[:, 1:]
    X = with_spectrum(rng, n, m, spectrum(rng, k), W, cplx)
    Y = A.dot(X)
    if tls and c['rank'] == 'full':
        Y = Y + 0.3 * rnd(rng, Y.shape, cplx)
    X, Y = layout(X * c['sc'], c['lay']), layout(Y * c['sc'], c['lay'])
    return w, W, ip, None, X, Y


def separated(vals):
    v = np.asarray(vals)
    for a, b in zip(v[:-1], v[1:]):
        if b / a > 0.985:
            raise Skip()
    return v


def eig_count(K, c, meth_sv, extra=None, guard=True):
    """tolerances and number kept of the eigenvalues of K (singular values if meth_sv)"""
    ev = np.linalg.eigvalsh((K + H(K)) / 2)[::-1]
    if ev[0] <= 0:
        raise Skip()
    r = int((ev > 1e-9 * ev[0]).sum())
    if r < len(ev) and abs(ev[r]) > 1e-12 * ev[0]:
        raise Skip()
    if ev[r - 1] < 1e-5 * ev[0]:
        raise Skip()
    v = np.sqrt(ev[:r]) if meth_sv else ev[:r]
    return v, r, len(ev)


def count(v, kw, maxe):
    a, rt = kw.get('atol', 1e-13), kw.get('rtol')
    keep = np.ones(len(v), bool)
    if a is not None:
        if (np.abs(v - a) < 2e-3 * a).any() and a > 1e-9:
            raise Skip()
        keep &= v > a
    if rt is not None:
        if (np.abs(v / v[0] - rt) < 2e-3 * rt).any() and rt > 1e-8:
            raise Skip()
        keep &= v / v[0] > rt
    k = int(keep.sum())
    return k if maxe is None else min(k, maxe)


def check_dmd_results(g, W, X, Y, F, E, U, idx, maxe):
    """g: reported quantities; E, U: correlation eigenpairs that were kept"""
    lam, R, L = g['eigvals'], g['R'], g['L']
    k = len(E)
    Es = E ** -0.5
    XU, YU = X.dot(U) * Es, Y.dot(U) * Es
    At = H(XU).dot(W).dot(YU)
    sc = np.abs(At).max()
    if k and (np.linalg.cond(np.linalg.eig(At)[1]) > 1e4):
        raise Skip()
    if k and np.abs(np.linalg.eigvals(At)).min() < 1e-3:
        raise Skip()
    req(lam.shape == (k,) and R.shape == (k, k) and L.shape == (k, k), 'eigenvalues and eigenvectors have wrong shapes %r %r %r' % (lam.shape, R.shape, L.shape))
    close(At.dot(R), R * lam, 'low-order map times right eigenvectors', tol=1e-7, scale=sc * np.abs(R).max())
    close(H(L).dot(At), (H(L).T * lam).T, 'left eigenvectors times low-order map', tol=1e-7, scale=sc * np.abs(L).max())
    close(H(L).dot(R), np.eye(k), 'biorthogonality of low-order eigenvectors', tol=1e-7)
    proj, exact, adj = XU.dot(R), YU.dot(R) / lam, XU.dot(L)
    for nm, v in (('proj', proj), ('exact', exact), ('adjoint', adj)):
        ix = idx[nm] if isinstance(idx, dict) else idx
        if nm in g:
            close(g[nm], sel_cols(v, ix), nm + ' modes', tol=1e-7)
    close(H(adj).dot(W).dot(proj), np.eye(k), 'adjoint and projected modes', tol=1e-6)
    close(H(adj).dot(W).dot(exact), np.eye(k), 'adjoint and exact modes', tol=1e-6)
    pc, apc = H(adj).dot(W).dot(X), H(adj).dot(W).dot(Y)
    close(g['pc'], pc, 'projection coefficients', tol=1e-7, scale=np.abs(pc).max() + 1e-9)
    close(g['apc'], apc, 'advanced projection coefficients', tol=1e-7, scale=np.abs(apc).max() + 1e-9)
    close(g['spec'], np.abs(pc[:, 0]), 'spectral coefficients', tol=1e-7, scale=np.abs(pc).max() + 1e-9)


def dmd_kw(c, v):
    kw, _ = tolerances(c, v)
    return kw


def dmd_common(c, tls):
    rng = np.random.default_rng(c['seed'])
    w, W, ip, F, X, Y = dmd_data(rng, c, tls)
    m = X.shape[1]
    direct = c['meth'] == 'direct'
    K, Ky = H(X).dot(W).dot(X), H(Y).dot(W).dot(Y)
    base = K + Ky if tls else K
    v, r, tot = eig_count(base, c, direct)
    kw = dmd_kw(c, separated(v))
    if kw.get('atol', 1e-13) is None and kw.get('rtol') is None or not kw:
        kw['rtol'] = 1e-6 if direct else 1e-8
    if 'rtol' not in kw and (kw.get('atol', 1e-13) or 0) < 1e-9:
        kw['rtol'] = 1e-6 if direct else 1e-8
    # sum data scale differs from that of the projected data: TLS applies the same tolerances to both
    k1 = count(v, kw, c['maxe'])
    if k1 == 0:
        raise Skip()
    Us = None
    P = np.eye(m)
    if tls:
        ev, vec = np.linalg.eigh((base + H(base)) / 2)
        Us0 = vec[:, ::-1][:, :k1]
        P = Us0.dot(H(Us0))
        if k1 < len(v) and v[k1] / v[k1 - 1] > 0.98:
            raise Skip()
        Kp = P.dot(K).dot(P)
        v2, r2, tot2 = eig_count(Kp, c, direct)
        k2 = count(separated(v2), kw, c['maxe'])
    else:
        k2 = k1
    if k2 == 0:
        raise Skip()
    if k2 < (len(v2) if tls else len(v)):
        vv = v2 if tls else v
        if vv[k2] / vv[k2 - 1] > 0.98:
            raise Skip()
    XP, YP = X.dot(P), Y.dot(P)
    Kp = H(XP).dot(W).dot(XP)
    # discard ill conditioned low-order maps before running anything
    ev, vec = np.linalg.eigh((Kp + H(Kp)) / 2)
    U0, E0 = vec[:, ::-1][:, :k2], ev[::-1][:k2]
    At = (H(XP.dot(U0) / np.sqrt(E0))).dot(W).dot(YP.dot(U0) / np.sqrt(E0))
    el, er = np.linalg.eig(At)
    if np.linalg.cond(er) > 1e3 or np.abs(el).min() < 1e-2:
        raise Skip()
    idx = selections(rng, k2, c['sel'])
    mod = serial().dmd
    kw2 = dict(kw)
    if c['maxe'] is not None:
        kw2['max_num_eigvals'] = c['maxe']
    a, b = (F, None) if c['seq'] else (X, Y)
    a0, b0 = a.copy(), None if b is None else b.copy()
    if c['meth'] in ('snaps', 'direct'):
        fn = getattr(mod, 'compute_%sDMD_arrays_%s_method' % ('TLSqr' if tls else '', c['meth']))
        with quiet():
            r = fn(a, adv_vecs=b, mode_indices=idx, inner_product_weights=w, **kw2)
        g = dict(eigvals=r.eigvals, R=r.R_low_order_eigvecs, L=r.L_low_order_eigvecs, proj=r.proj_modes, exact=r.exact_modes, adjoint=r.adjoint_modes,
                 pc=r.proj_coeffs, apc=r.adv_proj_coeffs, spec=r.spectral_coeffs)
        if tls:
            Es_, Us, E, U = r.sum_correlation_array_eigvals, r.sum_correlation_array_eigvecs, r.proj_correlation_array_eigvals, r.proj_correlation_array_eigvecs
        else:
            E, U = r.correlation_array_eigvals, r.correlation_array_eigvecs
        if c['meth'] == 'snaps':
            close(r.correlation_array, K, 'correlation array')
            close(r.cross_correlation_array, H(X).dot(W).dot(Y), 'cross correlation array', scale=np.abs(K).max() + np.abs(Ky).max())
            if tls:
                close(r.adv_correlation_array, Ky, 'advanced correlation array')
    else:
        ix = {nm: selections(rng, k2, SEL[(c['seed'] + j) % len(SEL)]) for j, nm in enumerate(('proj', 'exact', 'adjoint'))}
        idx = {nm: (i if i is not None else list(range(k2))) for nm, i in ix.items()}

        def make(r):
            log = []
            d = dict(log=log, a=handles(a, log, 'a'), b=None if b is None else handles(b, log, 'b'))
            for nm in idx:
                d[nm] = outs(log, nm, len(idx[nm]))
            d['other'] = handles(rnd(np.random.default_rng(1), (X.shape[0], 4)), log, 'o'), handles(rnd(np.random.default_rng(2), (X.shape[0], 4)), log, 'o2')
            return d

        def go(ns, r, e):
            cls = ns.dmd.TLSqrDMDHandles if tls else ns.dmd.DMDHandles
            D = cls(inner_product=ip, max_vecs_per_node=c['limit'], verbosity=0)
            if c['seed'] % 3 == 0 and not c['cplx']:     # an earlier, unrelated use of the object
                D.compute_decomp(e['other'][0], adv_vec_handles=e['other'][1])
            data = {} if b is None else dict(adv_vec_handles=e['b'])
            if c['seed'] % 5 == 1:       # other tolerances first; the decomposition alone, or everything, again
                D.compute_decomp(e['a'], atol=0 if c['seed'] % 2 else kw2.get('atol', 1e-13), max_num_eigvals=1 if c['seed'] % 3 else None, **data)
                D.compute_proj_coeffs()
                D.compute_spectrum()
            if c['seed'] % 10 == 1:
                D.compute_eigendecomp(**kw2)
                ret = None
            else:
                ret = D.compute_decomp(e['a'], **dict(kw2, **data))
            st = [D.eigvals, D.R_low_order_eigvecs, D.L_low_order_eigvecs]
            st += [D.sum_correlation_array_eigvals, D.sum_correlation_array_eigvecs, D.proj_correlation_array_eigvals, D.proj_correlation_array_eigvecs] if tls \
                else [D.correlation_array_eigvals, D.correlation_array_eigvecs]
            req(ret is None or len(ret) == len(st), 'decomposition has the wrong number of parts')
            for x, y in zip(ret or st, st):
                same(x, y, 'returned decomposition')
            D.compute_exact_modes(idx['exact'], e['exact'], **(dict(adv_vec_handles=e['b']) if b is not None and c['seed'] % 2 else {}))
            D.compute_proj_modes(idx['proj'], e['proj'], **({} if c['seed'] % 2 else dict(vec_handles=e['a'])))
            D.compute_adjoint_modes(idx['adjoint'], e['adjoint'], **({} if c['seed'] % 2 else dict(vec_handles=e['a'])))
            spec = D.compute_spectrum()
            pc, apc = D.compute_proj_coeffs()
            same(spec, D.spectral_coeffs, 'stored spectrum')
            same(pc, D.proj_coeffs, 'stored coefficients')
            same(apc, D.adv_proj_coeffs, 'stored coefficients')
            out = dict(eigvals=D.eigvals, R=D.R_low_order_eigvecs, L=D.L_low_order_eigvecs, pc=pc, apc=apc, spec=spec, K=D.correlation_array, Kxy=D.cross_correlation_array)
            if tls:
                out.update(Es=D.sum_correlation_array_eigvals, Us=D.sum_correlation_array_eigvecs, E=D.proj_correlation_array_eigvals, U=D.proj_correlation_array_eigvecs, Ky=D.adv_correlation_array)
            else:
                out.update(E=D.correlation_array_eigvals, U=D.correlation_array_eigvecs)
            return out
        res, ex = run_handles(c, make, go)
        agree(res, 'DMD')
        g = dict(res[0])
        close(g['K'], K, 'correlation array')
        close(g['Kxy'], H(X).dot(W).dot(Y), 'cross correlation array', scale=np.abs(K).max() + np.abs(Ky).max())
        if tls:
            close(g['Ky'], Ky, 'advanced correlation array')
            Es_, Us = g['Es'], g['Us']
        E, U = g['E'], g['U']
        for nm in idx:
            g[nm] = merge_modes(ex, nm, len(idx[nm]), X.shape[0])
    same(a, a0, 'the data')
    if b is not None:
        same(b, b0, 'the advanced data')
    if tls:
        req(Us.shape == (m, k1) and Es_.shape == (k1,), '%r eigenvalues of the summed correlation array kept, %d expected' % (Es_.shape, k1))
        close(H(Us).dot(Us), np.eye(k1), 'orthonormality of summed correlation eigenvectors')
        close(base.dot(Us), Us * Es_, 'eigenvectors of the summed correlation array', scale=np.abs(base).max())
        req((np.diff(Es_) <= 1e-12 * Es_[0]).all(), 'eigenvalues not sorted')
        P = Us.dot(H(Us))
        XP, YP = X.dot(P), Y.dot(P)
        Kp = H(XP).dot(W).dot(XP)
    req(U.shape == (m, k2) and E.shape == (k2,), '%r correlation eigenvalues kept, %d expected' % (E.shape, k2))
    close(H(U).dot(U), np.eye(k2), 'orthonormality of correlation eigenvectors')
    close(Kp.dot(U), U * E, 'correlation eigenvectors', scale=np.abs(Kp).max())
    req((np.diff(E) <= 1e-12 * E[0]).all() and (E > 0).all(), 'correlation eigenvalues not positive and sorted')
    check_dmd_results(g, W, XP, YP, F, E, U, idx, c['maxe'])


def check_C11(c):
    dmd_common(c, False)


def check_C12(c):
    dmd_common(c, True)


# ------------------------------------------------------------------ C13
def cases_C13(rng, n):
    for c in product_cases(rng, n, what=['arrays', 'handles', 'derivs', 'derivsh'], n=[3, 5], m=[1, 2, 3], q=[1, 2, 4], p=[1, 2, 3], w=WK, cplx=[0, 1], adj=[0, 1], on=[0, 1],
                           order=['model', 'ABC', 'BCA', 'AAB'], P=[1, 1, 2, 3, 4], limit=[None, 3], hk=['obj', 'mem', 'memsame'], mag=[0, 0, -4, 4], lay=LAY):
        yield c


def check_C13(c):
    rng = np.random.default_rng(c['seed'])
    n, m, cplx = c['n'], c['m'], c['cplx']
    w, W, ip = space_ip(rng, c['w'], n, cplx)
    if c['what'].startswith('derivs'):
        X, Y = rnd(rng, (n, m + c['q'])), rnd(rng, (n, m + c['q']))
        dt = float(rng.uniform(0.1, 3)) if c['seed'] % 2 else int(rng.integers(1, 5))
        if c['what'] == 'derivs':
            Z = serial().ltigalerkinproj.compute_derivs_arrays(X, Y, dt)
            close(Z, (Y - X) / dt, 'derivatives')
            if dt == int(dt):
                for P_, Q_ in (((X * 9).astype(int), Y), (X, (Y * 9).astype(int))):
                    close(serial().ltigalerkinproj.compute_derivs_arrays(P_, Q_, dt), (Q_ - P_) / float(dt), 'derivatives of integers and reals')
                close(serial().ltigalerkinproj.compute_derivs_arrays((X * 9).astype(int), (Y * 9).astype(int), dt), ((Y * 9).astype(int) - (X * 9).astype(int)) / float(dt), 'derivatives of integers')
        else:
            def make(r):
                log = []
                return dict(log=log, x=handles(X, log, 'x'), y=handles(Y, log, 'y'), o=outs(log, 'o', X.shape[1]))
            res, ex = run_handles(c, make, lambda ns, r, e: ns.ltigalerkinproj.compute_derivs_handles(e['x'], e['y'], e['o'], dt))
            close(merge_modes(ex, 'o', X.shape[1]), (Y - X) / dt, 'derivatives')
            req(all(nm[0] == 'o' for e in ex for nm, _ in e['log']), 'an input handle was put to')
            for e in ex:
                for h, A in ((e['x'], X), (e['y'], Y)):
                    for j in range(X.shape[1]):
                        same(h[j].vec.a, A[:, j], 'an input vector')
            for k in range(3):
                e = make(0)
                a = [e['x'], e['y'], e['o']]
                a[k] = a[k][:-1]
                try:
                    serial().ltigalerkinproj.compute_derivs_handles(a[0], a[1], a[2], dt)
                except Exception:
                    pass
                else:
                    raise Violation('different numbers of vectors are accepted')
        return
    on = c['on'] and not c['adj']
    Phi = rnd(rng, (n, m), cplx)
    Psi = Phi
    if on:
        Phi = Psi = np.linalg.solve(wsqrt(W), orth(rng, n, m, cplx))
    elif c['adj']:
        Psi = Phi + 0.3 * rnd(rng, (n, m), cplx)
    bi = c['on'] and c['adj']
    if c['mag'] and not on and c['hk'] != 'memsame':
        Phi = Phi.copy()
        Phi[:, -1] *= 10. ** c['mag']
        if not c['adj']:
            Psi = Phi
    if bi:
        Psi = Psi.dot(H(np.linalg.inv(H(Psi).dot(W).dot(Phi))))
    G = H(Psi).dot(W).dot(Phi)
    if np.linalg.cond(G / np.sqrt(np.abs(np.diag(G)))[:, None] / np.sqrt(np.abs(np.diag(G)))) > 1e4:
        raise Skip()
    A, B, C = rnd(rng, (n, n), cplx), rnd(rng, (n, c['q']), cplx), rnd(rng, (c['p'], n), cplx)
    iso = bool(c['on'])
    Phi, Psi = layout(Phi, c['lay']), layout(Psi, c['lay'])
    APhi, CPhi = layout(A.dot(Phi), c['lay']), C.dot(Phi)
    Gi = np.eye(m) if iso else np.linalg.inv(G)
    eA, eB, eC = Gi.dot(H(Psi)).dot(W).dot(APhi), Gi.dot(H(Psi)).dot(W).dot(B), CPhi

    def use(obj, a, b, cc):
        if c['order'] == 'model':
            r = obj.compute_model(a, b, cc)
        else:
            for ch in c['order']:
                dict(A=lambda: same(obj.reduce_A(a), obj.A_reduced, 'A'), B=lambda: same(obj.reduce_B(b), obj.B_reduced, 'B'), C=lambda: same(obj.reduce_C(cc), obj.C_reduced, 'C'))[ch]()
            if 'C' not in c['order']:
                obj.reduce_C(cc)
            r = (obj.A_reduced, obj.B_reduced, obj.C_reduced)
        for x, y in zip(r, (obj.A_reduced, obj.B_reduced, obj.C_reduced)):
            same(x, y, 'reduced array')
        return r
    if c['what'] == 'arrays':
        keep = [x.copy() for x in (Phi, Psi, APhi, B, CPhi)]
        obj = serial().ltigalerkinproj.LTIGalerkinProjectionArrays(Phi, adjoint_basis_vecs=Psi if c['adj'] else None, is_basis_orthonormal=iso, inner_product_weights=w)
        r = use(obj, APhi, B, CPhi)
        for x, y in zip((Phi, Psi, APhi, B, CPhi), keep):
            same(x, y, 'an argument')
    else:
        def make(r):
            log = []
            d = dict(log=log, phi=handles(Phi, log, 'phi'), psi=handles(Psi, log, 'psi'), a=handles(APhi, log, 'a'), b=handles(B, log, 'b'))
            if c['hk'] != 'obj':       # modred's own handles, with scales and base vectors
                vm = collect(c['P'])[1][r].vectors
                d['phi'] = [vm.VecHandleInMemory(VA(Phi[:, j])) for j in range(m)]
                if c['hk'] == 'memsame':   # the same stored contents, another base vector
                    d['psi'] = [vm.VecHandleInMemory(VA(Phi[:, j]), base_vec_handle=vm.VecHandleInMemory(VA((Phi - Psi)[:, j]))) for j in range(m)]
                else:
                    d['psi'] = [vm.VecHandleInMemory(VA(Psi[:, j] / 2.), scale=2.) for j in range(m)]
            return d

        def go(ns, r, e):
            obj = ns.ltigalerkinproj.LTIGalerkinProjectionHandles(ip, e['phi'], adjoint_basis_vec_handles=e['psi'] if c['adj'] else None, is_basis_orthonormal=iso, verbosity=0,
                                                                  **({} if c['limit'] is None else dict(max_vecs_per_node=c['limit'])))
            x = use(obj, e['a'], e['b'], [CPhi[:, j] for j in range(m)])
            return dict(A=x[0], B=x[1], C=x[2])
        res, ex = run_handles(c, make, go)
        agree(res, 'model')
        req(not any(e['log'] for e in ex), 'a handle was put to')
        r = [res[0][k] for k in 'ABC']
    for j in range(m):       # row by row, as rows may be of very different magnitude
        for x, e, D in ((r[0], eA, APhi), (r[1], eB, B)):
            close(x[j], e[j], 'row %d of a reduced array' % j, tol=1e-6, scale=np.abs(Gi).dot(np.abs(H(Psi).dot(W))).dot(np.abs(D))[j].max())
    close(r[0], eA, 'reduced A', tol=1e-7)
    close(r[1], eB, 'reduced B', tol=1e-7)
    close(r[2], eC, 'reduced C')


# ------------------------------------------------------------------ C14
def cases_C14(rng, n):
    for c in product_cases(rng, n, what=['model', 'model', 'sampled'], p=[1, 2, 3], q=[1, 2, 3], n=[1, 2, 4], nt=[8, 9, 14, 15, 22], dims=['default', 'mc', 'mo', 'both', 'ctor', 'ctor1'], ndim=[3, 3, 1, 2], step=[1, 3], wide=[0, 0, 1], cplx=[0, 0, 1]):
        yield c


def check_C14(c):
    rng = np.random.default_rng(c['seed'])
    era = serial().era
    p, q, n, nt = c['p'], c['q'], c['n'], c['nt']
    if c['ndim'] == 1:
        p = q = 1
    if c['ndim'] == 2:
        q = 1
    if c['what'] == 'sampled':
        t = np.arange(nt) * 0.1 * c['step'] + rng.uniform(-1, 1)
        M = rnd(rng, (nt, p, q), c['cplx'])
        t0, M0 = t.copy(), M.copy()
        ts, Ms = era.make_sampled_format(t, M)
        same(t, t0, 'times')
        same(M, M0, 'Markov parameters')
        et = np.array([[i, i + 1] for i in range(nt - 1)]).ravel()
        eM = np.array([M[j] for j in et])
        close(ts, et, 'time steps')
        close(Ms, eM, 'sampled Markov parameters')
        t2 = t.copy()
        t2[int(rng.integers(2, nt))] += 0.01
        for bad in ((t2, M), (t[:-1], M)):
            try:
                era.make_sampled_format(*bad)
            except Exception:
                pass
            else:
                raise Violation('unequal spacing or sizes are accepted')
        return
    Q = orth(rng, n, n, c['cplx'])
    A = Q.dot(np.diag(0.9 * 0.85 ** np.arange(n))).dot(H(Q)).dot(orth(rng, n, n, c['cplx']) * 1.0)
    A = A / max(1.0, np.abs(np.linalg.eigvals(A)).max() / 0.95)
    B, C = rnd(rng, (n, q), c['cplx']), rnd(rng, (p, n), c['cplx'])
    if c['wide']:      # states of very different weight
        A = np.diag(0.9 * 0.7 ** np.arange(n))
        B, C = B * (10. ** (-2.0 * np.arange(n)))[:, None], C * 10. ** (-2.0 * np.arange(n))
    # sampled format: samples 0,1,P,P+1,2P,...
    Pp = 2 if c['step'] == 1 else 3
    steps = [j // 2 * Pp + j % 2 for j in range(nt)]
    M = np.array([C.dot(np.linalg.matrix_power(A, s)).dot(B) for s in steps])
    nte = nt - nt % 2
    dflt = (nte - 2) // 4
    mc = mo = None
    hi = max(1, nte // 2 + 1 - dflt)
    if c['dims'] in ('mc', 'both', 'ctor', 'ctor1'):
        mc = int(rng.integers(1, hi + 1))
    if c['dims'] in ('mo', 'both', 'ctor'):
        mo = int(rng.integers(1, min(hi, nte // 2 + 1 - (mc or dflt)) + 1))
    emc, emo = (dflt if mc is None else mc), (dflt if mo is None else mo)
    if emc + emo + 2 > nte or 2 * (emc + emo) - 2 > nte or min(emc, emo) < 1:
        raise Skip()
    ctor = c['dims'].startswith('ctor')
    obj = era.ERA(verbosity=0, **({k: v for k, v in (('mc', mc), ('mo', mo)) if v is not None} if ctor else {}))
    Hx = np.vstack([np.hstack([M[2 * (i + j)] for j in range(emc)]) for i in range(emo)])
    H2 = np.vstack([np.hstack([M[2 * (i + j) + 1] for j in range(emc)]) for i in range(emo)])
    sv = np.linalg.svd(Hx, compute_uv=False)
    lo = 1e-11 if c['wide'] else 1e-6
    k = int((sv > lo * sv[0]).sum())
    if k < len(sv) and sv[k] > (1e-15 if c['wide'] else 1e-12) * sv[0] * 4:
        raise Skip()
    if sv[k - 1] < 10 * lo * sv[0] or sv[k - 1] < 1e-12:
        raise Skip()
    loose = sv[0] / sv[k - 1] if c['wide'] else 1
    for a, b in zip(sv[:k - 1], sv[1:k]):
        if b / a > 0.98:
            raise Skip()
    r = k if c['seed'] % 2 else max(1, k - 1)
    Marg = M.reshape({3: M.shape, 1: (nt,), 2: (nt, p)}[c['ndim']])
    M0 = Marg.copy()
    if c['seed'] % 3 == 1:      # the object has been used before, with data that are close but not the same
        with quiet():
            obj.compute_model(Marg * (1 + 5e-6), max(1, r - 1), **({} if ctor else {k2: v for k2, v in (('mc', mc), ('mo', mo)) if v is not None}))
    with quiet():
        Ar, Br, Cr = obj.compute_model(Marg, r, **({} if ctor else {k2: v for k2, v in (('mc', mc), ('mo', mo)) if v is not None}))
    same(Marg, M0, 'Markov parameters')
    close(obj.Hankel_array, Hx, 'Hankel array')
    close(obj.Hankel_array2, H2, 'second Hankel array')
    close(obj.sing_vals[:k], sv[:k], 'singular values')
    req(Ar.shape == (r, r) and Br.shape == (r, q) and Cr.shape == (p, r), 'model of %r states, %d requested and significant' % (Ar.shape, r))
    U, S, Vv = obj.L_sing_vecs[:, :r], obj.sing_vals[:r], obj.R_sing_vecs[:, :r]
    close(Hx.dot(Vv), U * S, 'H V - U S', scale=sv[0])
    close(H(U).dot(U), np.eye(r), 'U^* U')
    close(H(Vv).dot(Vv), np.eye(r), 'V^* V')
    close(Ar, ((H(U) / np.sqrt(S)[:, None]).dot(H2).dot(Vv / np.sqrt(S))), 'A', tol=1e-7, scale=max(1, 1e-6 * loose))
    close(Br, (np.sqrt(S)[:, None] * H(Vv))[:, :q], 'B')
    close(Cr, (U * np.sqrt(S))[:p], 'C')
    if r == k == n and not c['wide'] and emc * q >= n and emo * p >= n:
        for s in range(4):
            close(Cr.dot(np.linalg.matrix_power(Ar, s)).dot(Br), C.dot(np.linalg.matrix_power(A, s)).dot(B), 'Markov parameter %d of the model' % s, tol=1e-5, scale=np.abs(M).max())
    if c['dims'] == 'default':
        with quiet():
            r2 = era.compute_ERA_model(Marg, r)
        for x, y in zip(r2, (Ar, Br, Cr)):
            close(x, y, 'model of the convenience function', tol=1e-6)
    if not ctor and c['seed'] % 3 == 0:
        with quiet():
            obj.compute_model(Marg, r)
        dd = (dflt * p, dflt * q)
        req(obj.Hankel_array.shape == dd, 'Hankel dimensions %r of an earlier call are kept' % (obj.Hankel_array.shape,))


# ------------------------------------------------------------------ C15
def cases_C15(rng, n):
    for c in product_cases(rng, n, p=[1, 2, 3], q=[1, 2], K=[1, 2, 3, 5, 7], nt=[12, 20, 40, 61], kind=['random', 'fir', 'fir', 'observer'], d1=[0, 1], usc=[0, 0, -3, 3], ysc=[0, 0, -3, 3], ints=[0, 0, 0, 1, 2], small=[0, 0, 0, -5, -8]):
        yield c


def check_C15(c):
    rng = np.random.default_rng(c['seed'])
    OK = serial().okid.OKID
    p, q, K, nt = c['p'], c['q'], c['K'], c['nt']
    if c['d1']:
        p = q = 1
    u = rnd(rng, (q, nt))
    if c['ints'] and not c['small']:
        u = np.round(3 * u).astype(int)
    else:
        u[-1] *= 10. ** c['usc']
    small = 10. ** c['small'] if c['kind'] == 'observer' else 1.
    if c['kind'] == 'random':
        y = rnd(rng, (p, nt))
    else:
        # y[t] = D u[t] + sum_{i<=K} (b_i u[t-i] + a_i y[t-i])
        D = rnd(rng, (p, q)) * small
        bs = [rnd(rng, (p, q)) * 0.6 ** i * small for i in range(K)]
        as_ = [rnd(rng, (p, p)) * (0.2 * 0.5 ** i if c['kind'] == 'observer' else 0) for i in range(K)]
        y = np.zeros((p, nt))
        for t in range(nt):
            y[:, t] = D.dot(u[:, t])
            for i in range(1, K + 1):
                if t - i >= 0:
                    y[:, t] += bs[i - 1].dot(u[:, t - i]) + as_[i - 1].dot(y[:, t - i])
    if c['kind'] != 'observer':
        y[-1] *= 10. ** c['ysc']
        if c['kind'] == 'fir':
            D[-1] *= 10. ** c['ysc']
            for b in bs:
                b[-1] *= 10. ** c['ysc']
    if c['ints'] == 2 and c['kind'] == 'random' and not c['ysc'] and not c['usc']:
        y = np.round(3 * y).astype(int)
        u = u + rnd(rng, u.shape)
    rows = [u]
    for i in range(1, K + 1):
        for s in (u, y):
            z = np.zeros_like(s)
            z[:, i:] = s[:, :nt - i]
            rows.append(z)
    Vm = np.vstack(rows)
    sv = np.linalg.svd(Vm, compute_uv=False)
    rk = int((sv > 1e-10 * sv[0]).sum())
    if small < 1:
        # outputs much smaller than the inputs; well posed after scaling rows
        s1 = np.linalg.svd(Vm / np.abs(Vm).max(axis=1, keepdims=True).clip(1e-300), compute_uv=False)
        if len(s1) < Vm.shape[0] or s1[-1] < 1e-3 * s1[0]:
            raise Skip()
        rk = Vm.shape[0]
    else:
        if rk < len(sv) and sv[rk] > 1e-14 * sv[0]:
            raise Skip()
        if sv[rk - 1] < 1e-6 * sv[0]:
            raise Skip()
    uu, yy = (u[0], y[0]) if c['d1'] else (u, y)
    keep = uu.copy(), yy.copy()
    M = OK(uu, yy, K)
    same(uu, keep[0], 'the inputs')
    same(yy, keep[1], 'the outputs')
    if small < 1:
        true = [D]
        for k in range(1, K):
            m = bs[k - 1].copy()
            for i in range(1, k + 1):
                m = m + as_[i - 1].dot(true[k - i])
            true.append(m)
        close(M, np.array(true), 'true Markov parameters', tol=1e-4)
        return
    Yb = H(np.linalg.lstsq(H(Vm), H(y), rcond=None)[0])
    est = [Yb[:, :q]]
    w = p + q
    for k in range(1, K):
        blk = Yb[:, q + (k - 1) * w:q + k * w]
        m = blk[:, :q].copy()
        for i in range(1, k + 1):
            bi = Yb[:, q + (i - 1) * w:q + i * w]
            m = m + bi[:, q:].dot(est[k - i])
        est.append(m)
    close(M, np.array(est), 'Markov parameters', tol=1e-6, scale=np.abs(np.array(est)).max() + np.abs(Yb).max() + 1e-9)
    if c['kind'] != 'random' and rk == Vm.shape[0]:
        true = [D]
        for k in range(1, K):
            m = bs[k - 1].copy()
            for i in range(1, k + 1):
                m = m + as_[i - 1].dot(true[k - i])
            true.append(m)
        close(M, np.array(true), 'true Markov parameters', tol=1e-6, scale=np.abs(np.array(true)).max())
    try:
        OK(u, y[:, :-1], K)
    except ValueError:
        pass
    else:
        raise Violation('signals of different lengths are accepted')
