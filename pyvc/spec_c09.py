from common import *


def setup(I, c, run, with_list=True):
    cfg = run.cfg
    run.contracts = {}
    dec_contracts(run)
    return cfg


def pod_post(c, run, X, W, E, Q, modes, proj, ind, kind, rec, K):
    """E eigenvalues (1D array), Q eigenvectors, modes, proj: arrays"""
    S = sel_of(c, ind, K)
    Ep = diag_poly(E)
    G = mul(H(X), W, X)
    c.prove_mat(mul(G, mat(Q)), mul(mat(Q), Ep), 'correlation array times eigenvectors = eigenvectors times eigenvalues')
    c.prove_mat(mul(H(mat(Q)), mat(Q)), ID, 'eigenvectors orthonormal')
    rt = diag_poly(V.power(E, Fr(-1, 2)))
    full = mul(X, mat(Q), rt)
    c.prove_mat(mul(H(full), W, full), ID, 'X Q E^-1/2 is orthonormal in the inner product')
    if modes is not None:
        c.prove_mat(modes, mul(full, S), 'modes = X Q E^-1/2 [:, indices]')
    if proj is not None:
        c.prove_mat(mat(proj), mul(H(full), W, X), 'projection coefficients = inner products of modes with snapshots')


def snaps(I, c, run):
    cfg = setup(I, c, run)
    n, m = c.int_('n', 1), c.int_('m', 1)
    X = matrix('X', n, m, frozen=True)
    w, W = the_weights(c, cfg['weights'], n)
    at, rt = tol(c, cfg['atol'], 'atol'), tol(c, cfg['rtol'], 'rtol')
    ind = indices(c, cfg['ind'])
    f = I.module('pod').env['compute_POD_arrays_snaps_method']
    r = I.call(f, [X], dict(mode_indices=ind, inner_product_weights=w, atol=at, rtol=rt))
    E = fld(r, 'eigvals')
    G = mul(H(X.poly), W, X.poly)
    rec = kept(c, 'eigh', G, at, rt, (True,))
    ok_kept(c, run, rec, 'E', E)
    pod_post(c, run, X.poly, W, E, fld(r, 'eigvecs'), mat(fld(r, 'modes')), fld(r, 'proj_coeffs'), ind, 'eigh', rec, E.shape_[0])
    c.prove_mat(mat(fld(r, 'correlation_array')), G, 'correlation array = X^* W X')
    no_mutation(c, run)


def ok_kept(c, run, rec, key, E, power=1, mx=None, name="the caller's tolerances select the kept values"):
    if rec is None:
        run.obligation(c, name, False, 'frame', 0, 'no decomposition of this array with these tolerances', None)
        return
    K = rec['K']
    if mx is not None:
        k2 = mknum(z3.If(z(mx) < z(K), z(mx), z(K)))
    else:
        k2 = K
    c.prove(z(E.shape_[0]) == z(k2), name + ' (number)')
    S = one((('S', V.sel_interval(0, k2, K), False),))
    D = diag_poly(V.power(rec[key], Fr(power)))
    c.prove_mat(diag_poly(E), mul(T(S), D, S), name)


def direct(I, c, run):
    cfg = setup(I, c, run)
    n, m = c.int_('n', 1), c.int_('m', 1)
    X = matrix('X', n, m, frozen=True)
    w, W = the_weights(c, cfg['weights'], n)
    at, rt = tol(c, cfg['atol'], 'atol'), tol(c, cfg['rtol'], 'rtol')
    ind = indices(c, cfg['ind'])
    f = I.module('pod').env['compute_POD_arrays_direct_method']
    r = I.call(f, [X], dict(mode_indices=ind, inner_product_weights=w, atol=at, rtol=rt))
    E = fld(r, 'eigvals')
    # a square root F of the weights, W = F^* F, is part of the contract: the values kept are those of F X
    rec = None
    for k2, A2, a2, r2, e2, rr in c.run_memo.get('kept', []):
        if k2 == 'svd' and same_tol(c, a2, at) and same_tol(c, r2, rt) and c.mat_zero(padd(mul(H(A2), A2), mul(H(X.poly), W, X.poly), -1))[0]:
            rec = rr
    ok_kept(c, run, rec, 'S', E, 2)
    pod_post(c, run, X.poly, W, E, fld(r, 'eigvecs'), mat(fld(r, 'modes')), fld(r, 'proj_coeffs'), ind, 'svd', rec, E.shape_[0])
    no_mutation(c, run)


def handles_pod(I, c, run):
    cfg = setup(I, c, run)
    n, m = c.int_('n', 1), c.int_('m', 1)
    W = matrix('W', n, n, herm=True).poly
    vsh = VSH(c, W)
    vsh.install(run)
    hs = handles(c, 'X', n, m)
    X = hs.meta['handles']
    at, rt = tol(c, cfg['atol'], 'atol'), tol(c, cfg['rtol'], 'rtol')
    ind = indices(c, cfg['ind'])
    k = ind.shape_[0]
    out = handles(c, 'modes', n, k)
    first = dict(atol=tol(c, 'sym', 'atol0'), rtol=tol(c, 'sym', 'rtol0')) if cfg.get('redo') else None
    if cfg.get('prior'):
        m0, i0 = c.int_('m0', 1), indices(c, 'array', 'ind0')
        h0, o0 = handles(c, 'X0', n, m0), handles(c, 'modes0', n, i0.shape_[0])

    def session(I, who):
        P = I.call(I.module('pod').env['PODHandles'], [], dict(inner_product=vsh.ipf))
        g = lambda x: I.getattr(P, x)
        if cfg.get('prior'):
            # the object has been used with other data before
            I.call(g('compute_decomp'), [h0], {})
            I.call(g('compute_proj_coeffs'), [], {})
            I.call(g('compute_modes'), [i0, o0], {})
        if cfg.get('redo'):
            # the decomposition of the same data, first with other tolerances
            I.call(g('compute_decomp'), [hs], first)
            I.call(g('compute_proj_coeffs'), [], {})
            I.call(g('compute_modes'), [ind, out], {})
        if cfg.get('redo') == 'eigendecomp':
            r = None
            I.call(g('compute_eigendecomp'), [], dict(atol=at, rtol=rt))
        else:
            r = I.call(g('compute_decomp'), [hs], dict(atol=at, rtol=rt))
        E, Q = g('eigvals'), g('eigvecs')
        G = mul(H(X), W, X)
        c.prove_mat(mat(g('correlation_array')), G, who + 'correlation array = X^* W X')
        if r is not None:
            prove_diag(c, r[0], diag_poly(E), who + 'returned eigenvalues are the stored ones')
            c.prove_mat(mat(r[1]), mat(Q), who + 'returned eigenvectors are the stored ones')
        ok_kept(c, run, kept(c, 'eigh', G, at, rt, (True,)), 'E', E)
        S = sel_of(c, ind, E.shape_[0])
        kw = {}
        if cfg['again']:
            # as for an object restored from a stored decomposition
            I.setattr(P, 'vec_handles', None)
            kw = dict(vec_handles=hs)
        del vsh.puts[:]
        I.call(g('compute_modes'), [ind, out], kw)
        check_put(c, run, vsh, out)
        proj = I.call(g('compute_proj_coeffs'), [], {})
        pod_post(c, run, X, W, E, Q, vsh.puts[-1][1] if vsh.puts else {}, proj, ind, 'eigh', None, E.shape_[0])
        c.prove_mat(mat(g('proj_coeffs')), mat(proj), who + 'stored projection coefficients are the returned ones')
    each_worker(I, c, run, vsh, session)
    no_mutation(c, run)


def check_put(c, run, vsh, out):
    ok = len(vsh.puts) == 1 and vsh.puts[0][0] is out
    run.obligation(c, 'the mode handles receive one linear combination each', ok, 'frame', 0, 'puts: %d' % len(vsh.puts), None)
    if not ok:
        raise Failed()


TOLS = [dict(atol=a, rtol=r) for a in ('sym', None) for r in ('sym', None)]


def cross(*lists):
    out = [{}]
    for l in lists:
        out = [dict(a, **b) for a in out for b in l]
    return out


WI = [dict(weights=w, ind=i, mpi=False) for w in ('none', '1d', '2d') for i in (None, 'array')]
units('C09', snaps, 'compute_POD_arrays_snaps_method', cross(TOLS, WI))
units('C09', direct, 'compute_POD_arrays_direct_method', cross(TOLS, WI))
units('C09', handles_pod, 'PODHandles', cross(TOLS, [dict(ind='array', mpi=False, again=g) for g in (False, True)]))
SYM = dict(atol='sym', rtol='sym', ind='array', again=False)
units('C09', handles_pod, 'PODHandles used before', [dict(SYM, mpi=False, prior=True)])
units('C09', handles_pod, 'PODHandles on two ranks', [dict(SYM, mpi=True), dict(SYM, mpi=True, prior=True)])
units('C09', handles_pod, 'PODHandles decomposed again', [dict(SYM, mpi=False, redo=x) for x in ('eigendecomp', 'decomp')])
