from common import *
from spec_c09 import ok_kept, check_put, cross, TOLS, WI
from spec_c11 import dmd_data, maxnum, dmd_post, svd_rec, handle_data, obj_fields, handle_modes, same_results, DM, mode_out, prior_data, prior_use, PRIOR, RANKS, REDO, redo


def tls_post(c, run, X, Y, W, at, rt, mx, d, Es, Us, S, sq, who=''):
    """d: results of the DMD of the projected data; Es, Us: the kept eigenpairs of the sum of the correlation arrays"""
    G = padd(mul(H(X), W, X), mul(H(Y), W, Y))
    rec = svd_rec(c, G, at, rt) if sq else kept(c, 'eigh', G, at, rt, (True,))
    ok_kept(c, run, rec, 'S' if sq else 'E', Es, 2 if sq else 1, mx, "the caller's tolerances select the kept eigenvalues of the sum of the correlation arrays")
    Um = mat(Us)
    c.prove_mat(mul(G, Um), mul(Um, diag_poly(Es)), 'sum of correlation arrays times Us = Us Es')
    c.prove_mat(mul(H(Um), Um), ID, 'Us^* Us = I')
    P = mul(Um, H(Um))
    Xp, Yp = mul(X, P), mul(Y, P)
    Gp = mul(H(Xp), W, Xp)
    rec = svd_rec(c, Gp, at, rt) if sq else kept(c, 'eigh', Gp, at, rt, (True,))
    ok_kept(c, run, rec, 'S' if sq else 'E', d['E'], 2 if sq else 1, mx, "the caller's tolerances select the kept eigenvalues of the projected correlation array")
    dmd_post(c, run, Xp, Yp, W, d, S, who + 'projected data: ')


def tls_fields(r, m):
    g = lambda n: getattr(r, n)
    return dict(E=g('proj_correlation_array_eigvals'), U=g('proj_correlation_array_eigvecs'), lam=g('eigvals'), R=g('R_low_order_eigvecs'), L=g('L_low_order_eigvecs'),
                proj=mat(g('proj_modes')), adj=mat(g('adjoint_modes')), exact=mat(g('exact_modes')), pc=g('proj_coeffs'), apc=g('adv_proj_coeffs'), sc=g('spectral_coeffs'), m=m)


def arrays(method):
    def f(I, c, run):
        cfg = run.cfg
        dec_contracts(run)
        n = c.int_('n', 1)
        v, a, X, Y, m = dmd_data(c, cfg, n)
        w, W = the_weights(c, cfg['weights'], n)
        at, rt = tol(c, cfg['atol'], 'atol'), tol(c, cfg['rtol'], 'rtol')
        ind, mx = indices(c, cfg['ind']), maxnum(c, cfg)
        fn = I.module('dmd').env['compute_TLSqrDMD_arrays_%s_method' % method]
        kw = dict(mode_indices=ind, inner_product_weights=w, atol=at, rtol=rt, max_num_eigvals=mx)
        if a is not None:
            kw['adv_vecs'] = a
        r = I.call(fn, [v], kw)
        d = tls_fields(r, m)
        if method == 'snaps':
            c.prove_mat(mat(r.correlation_array), mul(H(X), W, X), 'correlation array = X^*WX')
            c.prove_mat(mat(r.cross_correlation_array), mul(H(X), W, Y), 'cross correlation array = X^*WY')
            c.prove_mat(mat(r.adv_correlation_array), mul(H(Y), W, Y), 'advanced correlation array = Y^*WY')
        tls_post(c, run, X, Y, W, at, rt, mx, d, r.sum_correlation_array_eigvals, r.sum_correlation_array_eigvecs, sel_of(c, ind, d['E'].shape_[0]), method == 'direct')
        no_mutation(c, run)
    f.__name__ = 'tls_' + method
    return f


def tls_handles(I, c, run):
    cfg = run.cfg
    dec_contracts(run)
    n, m = c.int_('n', 1), c.int_('m', 1)
    W = matrix('W', n, n, herm=True).poly
    vsh = VSH(c, W)
    vsh.install(run)
    hs, ha, X, Y = handle_data(c, cfg, n, m)
    at, rt = tol(c, cfg['atol'], 'atol'), tol(c, cfg['rtol'], 'rtol')
    mx = maxnum(c, cfg)
    kw = dict(atol=at, rtol=rt, max_num_eigvals=mx)
    if ha is not None:
        kw['adv_vec_handles'] = ha
    out = mode_out(c, n)
    before = prior_data(c, cfg, n) if cfg.get('prior') else None
    first = dict(atol=tol(c, 'sym', 'atol0'), rtol=tol(c, 'sym', 'rtol0')) if cfg.get('redo') else None

    def session(I, who):
        D = I.call(I.module('dmd').env['TLSqrDMDHandles'], [], dict(inner_product=vsh.ipf))
        g = lambda k: I.getattr(D, k)
        if before:
            prior_use(I, D, before)
        r = None
        if cfg.get('redo'):
            # the decomposition of the same data, first with other tolerances
            redo(I, g, cfg, hs, ha, first, out)
            I.call(g('compute_eigendecomp'), [], {k: v for k, v in kw.items() if k != 'adv_vec_handles'})
        else:
            r = I.call(g('compute_decomp'), [hs], dict(kw))
        d = obj_fields(I, D, m, 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs')
        c.prove_mat(mat(g('correlation_array')), mul(H(X), W, X), who + 'correlation array = X^*WX')
        c.prove_mat(mat(g('cross_correlation_array')), mul(H(X), W, Y), who + 'cross correlation array = X^*WY')
        c.prove_mat(mat(g('adv_correlation_array')), mul(H(Y), W, Y), who + 'advanced correlation array = Y^*WY')
        Es, Us = g('sum_correlation_array_eigvals'), g('sum_correlation_array_eigvecs')
        if r is not None:
            same_results(c, r, [d['lam'], d['R'], d['L'], Es, Us, d['E'], d['U']])
        S = handle_modes(I, c, run, D, vsh, cfg, hs, ha, n, d, out)
        d['sc'] = I.call(g('compute_spectrum'), [], {})
        d['pc'], d['apc'] = I.call(g('compute_proj_coeffs'), [], {})
        tls_post(c, run, X, Y, W, at, rt, mx, d, Es, Us, S, False, who)
        for a, k in (('proj_coeffs', 'pc'), ('adv_proj_coeffs', 'apc')):
            c.prove_mat(mat(g(a)), mat(d[k]), who + 'stored %s are the returned ones' % a)
    each_worker(I, c, run, vsh, session)
    no_mutation(c, run)


for _m in ('snaps', 'direct'):
    units('C12', arrays(_m), 'compute_TLSqrDMD_arrays_%s_method' % _m, cross(TOLS, WI, DM))
units('C12', tls_handles, 'TLSqrDMDHandles', cross(TOLS, DM, [dict(again=g) for g in (False, True)]))
units('C12', tls_handles, 'TLSqrDMDHandles used before', PRIOR)
units('C12', tls_handles, 'TLSqrDMDHandles on two ranks', RANKS)
units('C12', tls_handles, 'TLSqrDMDHandles decomposed again', REDO)
