from common import *
from spec_c09 import ok_kept, check_put, cross, TOLS, WI


def dmd_data(c, cfg, n):
    """(vecs, adv_vecs) as arguments, X, Y as polynomials, number of pairs"""
    m = c.int_('m', 1)
    if cfg['data'] == 'seq':
        k = mknum(z(m) + 1)
        v = matrix('vecs', n, k, frozen=True)
        s0, s1 = V.sel_interval(0, m, k), V.sel_interval(1, k, k)
        return v, None, mul(v.poly, one((('S', s0, False),))), mul(v.poly, one((('S', s1, False),))), m
    X, Y = matrix('X', n, m, frozen=True), matrix('Y', n, m, frozen=True)
    return X, Y, X.poly, Y.poly, m


def maxnum(c, cfg):
    if not cfg.get('mx'):
        return None
    return c.int_('max_num', 1)


def dmd_post(c, run, X, Y, W, r, S, what=''):
    """r: dict of arrays (missing entries are not checked)"""
    E, U, lam, R, L = r['E'], mat(r['U']), r['lam'], mat(r['R']), mat(r['L'])
    G, Cc = mul(H(X), W, X), mul(H(X), W, Y)
    Ei = diag_poly(V.power(E, Fr(-1, 2)))
    D = diag_poly(lam)
    c.prove_mat(mul(G, U), mul(U, diag_poly(E)), what + 'X^*WX U = U E')
    c.prove_mat(mul(H(U), U), ID, what + 'U^*U = I')
    A = mul(Ei, H(U), Cc, U, Ei)
    c.prove_mat(mul(A, R), mul(R, D), what + 'low-order map times R = R Lambda')
    c.prove_mat(mul(H(L), A), mul(D, H(L)), what + 'L^* times low-order map = Lambda L^*')
    c.prove_mat(mul(H(L), R), ID, what + 'L^* R = I')
    proj, adj = mul(X, U, Ei, R), mul(X, U, Ei, L)
    exact = mul(Y, U, Ei, R, diag_poly(V.power(lam, -1)))
    c.prove_mat(mul(H(adj), W, proj), ID, what + 'adjoint and projected modes are biorthonormal')
    c.prove_mat(mul(H(adj), W, exact), ID, what + 'adjoint and exact modes are biorthonormal')
    for k, full in (('proj', proj), ('adj', adj), ('exact', exact)):
        if r.get(k) is not None:
            c.prove_mat(r[k], mul(full, S), what + {'proj': 'projected modes = X U E^-1/2 R', 'adj': 'adjoint modes = X U E^-1/2 L', 'exact': 'exact modes = Y U E^-1/2 R Lambda^-1'}[k] + ' [:, indices]')
    if r.get('pc') is not None:
        c.prove_mat(mat(r['pc']), mul(H(adj), W, X), what + 'projection coefficients = inner products of adjoint modes with the snapshots')
    if r.get('apc') is not None:
        c.prove_mat(mat(r['apc']), mul(H(adj), W, Y), what + 'advanced projection coefficients = inner products of adjoint modes with the advanced snapshots')
    if r.get('sc') is not None:
        sc = r['sc']
        if sc.absof is None:
            run.obligation(c, what + 'spectral coefficients are magnitudes', False, 'shape', 0, '%r' % (sc,), None)
        else:
            c.prove_mat(sc.absof, mul(H(adj), W, X, one((('S', V.sel_interval(0, 1, r['m']), False),))), what + 'spectral coefficients = magnitudes of the first projection coefficients')


def fields(r, m):
    g = lambda n: getattr(r, n)
    return dict(E=g('correlation_array_eigvals'), U=g('correlation_array_eigvecs'), lam=g('eigvals'), R=g('R_low_order_eigvecs'), L=g('L_low_order_eigvecs'),
                proj=mat(g('proj_modes')), adj=mat(g('adjoint_modes')), exact=mat(g('exact_modes')), pc=g('proj_coeffs'), apc=g('adv_proj_coeffs'), sc=g('spectral_coeffs'), m=m)


def svd_rec(c, G, at, rt):
    """the decomposition of an array F with F^*F = G (a square root of the weights times the data)"""
    for k2, A2, a2, r2, e2, rr in c.run_memo.get('kept', []):
        if k2 == 'svd' and same_tol(c, a2, at) and same_tol(c, r2, rt) and c.mat_zero(padd(mul(H(A2), A2), G, -1))[0]:
            return rr


def arrays(method):
    def f(I, c, run):
        cfg = run.cfg
        dec_contracts(run)
        n = c.int_('n', 1)
        v, a, X, Y, m = dmd_data(c, cfg, n)
        w, W = the_weights(c, cfg['weights'], n)
        at, rt = tol(c, cfg['atol'], 'atol'), tol(c, cfg['rtol'], 'rtol')
        ind, mx = indices(c, cfg['ind']), maxnum(c, cfg)
        fn = I.module('dmd').env['compute_DMD_arrays_%s_method' % method]
        kw = dict(mode_indices=ind, inner_product_weights=w, atol=at, rtol=rt, max_num_eigvals=mx)
        if a is not None:
            kw['adv_vecs'] = a
        r = I.call(fn, [v], kw)
        d = fields(r, m)
        G = mul(H(X), W, X)
        if method == 'snaps':
            ok_kept(c, run, kept(c, 'eigh', G, at, rt, (True,)), 'E', d['E'], 1, mx)
            c.prove_mat(mat(r.correlation_array), G, 'correlation array = X^*WX')
            c.prove_mat(mat(r.cross_correlation_array), mul(H(X), W, Y), 'cross correlation array = X^*WY')
        else:
            ok_kept(c, run, svd_rec(c, G, at, rt), 'S', d['E'], 2, mx)
        dmd_post(c, run, X, Y, W, d, sel_of(c, ind, d['E'].shape_[0]))
        no_mutation(c, run)
    f.__name__ = 'dmd_' + method
    return f


def handle_data(c, cfg, n, m, tag=''):
    if cfg['data'] == 'seq':
        k = mknum(z(m) + 1)
        hs = handles(c, 'X' + tag, n, k)
        p = hs.meta['handles']
        return hs, None, mul(p, one((('S', V.sel_interval(0, m, k), False),))), mul(p, one((('S', V.sel_interval(1, k, k), False),)))
    hs, ha = handles(c, 'X' + tag, n, m), handles(c, 'Y' + tag, n, m)
    return hs, ha, hs.meta['handles'], ha.meta['handles']


def obj_fields(I, D, m, E='correlation_array_eigvals', U='correlation_array_eigvecs'):
    g = lambda n: I.getattr(D, n)
    return dict(E=g(E), U=g(U), lam=g('eigvals'), R=g('R_low_order_eigvecs'), L=g('L_low_order_eigvecs'), m=m)


def mode_out(c, n, tag=''):
    ind = indices(c, 'array', 'ind' + tag)
    return ind, {k: handles(c, 'modes%s_' % tag + k, n, ind.shape_[0]) for k in ('exact', 'proj', 'adj')}


def handle_modes(I, c, run, D, vsh, cfg, hs, ha, n, d, out):
    """calls the three mode methods; the modes put go into d.  Returns the selection."""
    ind, outs = out
    S = sel_of(c, ind, d['E'].shape_[0])
    for k, meth, arg, given in (('exact', 'compute_exact_modes', 'adv_vec_handles', ha), ('proj', 'compute_proj_modes', 'vec_handles', hs), ('adj', 'compute_adjoint_modes', 'vec_handles', hs)):
        out = outs[k]
        del vsh.puts[:]
        kw = {}
        if cfg['again'] and given is not None:
            # as for an object restored from a stored decomposition
            I.setattr(D, arg, None)
            kw = {arg: given}
        I.call(I.getattr(D, meth), [ind, out], kw)
        check_put(c, run, vsh, out)
        d[k] = vsh.puts[0][1]
    return S


def prior_data(c, cfg, n):
    """data of another size with which the object has been used before"""
    return handle_data(c, dict(data=cfg['prior']), n, c.int_('m0', 1), '0') + (mode_out(c, n, '0'),)


def prior_use(I, D, data):
    hs, ha, _, _, (ind, outs) = data
    g = lambda k: I.getattr(D, k)
    I.call(g('compute_decomp'), [hs], {} if ha is None else dict(adv_vec_handles=ha))
    I.call(g('compute_proj_coeffs'), [], {})
    I.call(g('compute_spectrum'), [], {})
    for k, meth in (('adj', 'compute_adjoint_modes'), ('exact', 'compute_exact_modes'), ('proj', 'compute_proj_modes')):
        I.call(g(meth), [ind, outs[k]], {})


def redo(I, g, cfg, hs, ha, first, out):
    kw = dict(first)
    if ha is not None:
        kw['adv_vec_handles'] = ha
    I.call(g('compute_decomp'), [hs], kw)
    if cfg['redo'] == 'modes':
        I.call(g('compute_proj_coeffs'), [], {})
        I.call(g('compute_spectrum'), [], {})
        for k, meth in (('adj', 'compute_adjoint_modes'), ('exact', 'compute_exact_modes'), ('proj', 'compute_proj_modes')):
            I.call(g(meth), [out[0], out[1][k]], {})


def dmd_handles(I, c, run):
    cfg = run.cfg
    dec_contracts(run)
    n, m = c.int_('n', 1), c.int_('m', 1)
    W = matrix('W', n, n, herm=True).poly
    vsh = VSH(c, W)
    vsh.install(run)
    hs, ha, X, Y = handle_data(c, cfg, n, m)
    at, rt = tol(c, cfg['atol'], 'atol'), tol(c, cfg['rtol'], 'rtol')
    mx = maxnum(c, cfg)
    kw = dict(atol=at, rtol=rt, max_num_eigvals=mx)
    if ha is not None:
        kw['adv_vec_handles'] = ha
    out = mode_out(c, n)
    before = prior_data(c, cfg, n) if cfg.get('prior') else None
    first = dict(atol=tol(c, 'sym', 'atol0'), rtol=tol(c, 'sym', 'rtol0')) if cfg.get('redo') else None

    def session(I, who):
        D = I.call(I.module('dmd').env['DMDHandles'], [], dict(inner_product=vsh.ipf))
        g = lambda k: I.getattr(D, k)
        if before:
            prior_use(I, D, before)
        r = None
        if cfg.get('redo'):
            # the decomposition of the same data, first with other tolerances
            redo(I, g, cfg, hs, ha, first, out)
            I.call(g('compute_eigendecomp'), [], {k: v for k, v in kw.items() if k != 'adv_vec_handles'})
        else:
            r = I.call(g('compute_decomp'), [hs], dict(kw))
        d = obj_fields(I, D, m)
        G = mul(H(X), W, X)
        c.prove_mat(mat(g('correlation_array')), G, who + 'correlation array = X^*WX')
        c.prove_mat(mat(g('cross_correlation_array')), mul(H(X), W, Y), who + 'cross correlation array = X^*WY')
        ok_kept(c, run, kept(c, 'eigh', G, at, rt, (True,)), 'E', d['E'], 1, mx)
        if r is not None:
            same_results(c, r, [d['lam'], d['R'], d['L'], d['E'], d['U']])
        S = handle_modes(I, c, run, D, vsh, cfg, hs, ha, n, d, out)
        d['sc'] = I.call(g('compute_spectrum'), [], {})
        d['pc'], d['apc'] = I.call(g('compute_proj_coeffs'), [], {})
        dmd_post(c, run, X, Y, W, d, S, who)
        for a, k in (('proj_coeffs', 'pc'), ('adv_proj_coeffs', 'apc')):
            c.prove_mat(mat(g(a)), mat(d[k]), who + 'stored %s are the returned ones' % a)
    each_worker(I, c, run, vsh, session)
    no_mutation(c, run)


def same_results(c, r, want):
    if len(r) != len(want):
        c.run.obligation(c, 'number of results', False, 'shape', 0, '%d' % len(r), None)
        return
    for i, (a, b) in enumerate(zip(r, want)):
        if a.ndim == 1:
            c.prove_mat(diag_poly(a), diag_poly(b), 'result %d is the stored one' % i)
        else:
            c.prove_mat(mat(a), mat(b), 'result %d is the stored one' % i)


DM = [dict(data=d, mx=x, mpi=False) for d in ('seq', 'pair') for x in (False, True)]
for _m in ('snaps', 'direct'):
    units('C11', arrays(_m), 'compute_DMD_arrays_%s_method' % _m, cross(TOLS, WI, DM))
units('C11', dmd_handles, 'DMDHandles', cross(TOLS, DM, [dict(again=g) for g in (False, True)]))
SYM = dict(atol='sym', rtol='sym', again=False, mx=False)
PRIOR = [dict(SYM, mpi=False, prior=x, data=y) for x in ('seq', 'pair') for y in ('seq', 'pair')]
REDO = [dict(SYM, mpi=False, redo=x, data=y, mx=t) for x in ('only', 'modes') for y in ('seq', 'pair') for t in (False, True)]
RANKS = [dict(SYM, mpi=True, data='seq'), dict(SYM, mpi=True, data='pair', again=True), dict(SYM, mpi=True, data='seq', prior='pair')]
units('C11', dmd_handles, 'DMDHandles used before', PRIOR)
units('C11', dmd_handles, 'DMDHandles on two ranks', RANKS)
units('C11', dmd_handles, 'DMDHandles decomposed again', REDO)
