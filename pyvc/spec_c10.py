from common import *
from spec_c09 import ok_kept, check_put, cross, TOLS


def hankel_contract(check):
    """Hankel_chunks (decided under C16): block (i, j) is block i+j of the first column followed by the last row without its first block"""
    def f(I, fn, args, kw):
        b = bind(I, fn, args, kw)
        c = ctx()
        nb, col = I.seq(b['first_col_chunks'])
        c.prove(z(nb) > 0, 'the first block column of the Hankel array is not empty')
        q, p = col(0).shape_
        if b['last_row_chunks'] is None:
            raise Unsupported('Hankel array without a last row')
        na, row = I.seq(b['last_row_chunks'])
        for seq, n, what in ((col, nb, 'column'), (row, na, 'row')):
            k = c.int_('blk', 0)
            if c.decide(k.t < z(n)):
                sh = seq(k).shape_
                c.prove(z3.And(z(sh[0]) == z(q), z(sh[1]) == z(p)), 'blocks of the %s of the Hankel array have equal shapes' % what)
        H_, nm = V.new_atom('Hankel', mknum(z(nb) * z(q)), mknum(z(na) * z(p)))

        def block(i, j):
            if c.decide(z(i) + z(j) < z(nb)):
                return col(mknum(z(i) + z(j)))
            return row(mknum(z(i) + z(j) - z(nb) + 1))
        r = Arr((mknum(z(nb) * z(q)), mknum(z(na) * z(p))), poly=H_)
        check(c, r, block, nb, na, q, p)
        return r
    return f


def setting(I, c, run, n, tag=''):
    """numbers of inputs, outputs and samples; the inner products of adjoint with direct snapshots have block Hankel structure"""
    p, q = c.int_('num_inputs' + tag, 1), c.int_('num_outputs' + tag, 1)
    if run.cfg.get('default'):
        c.assume(z3.And(p.t == 1, q.t == 1))
    a, b = c.int_('direct_samples' + tag, 1), c.int_('adjoint_samples' + tag, 1)
    nd, na = mknum(p.t * a.t), mknum(q.t * b.t)
    c.assume(nd.t >= p.t), c.assume(na.t >= q.t)        # p a >= p as a >= 1
    run.quotients = [a, b]
    return p, q, a, b, nd, na


def lemma(c, f, hyps, name):
    """a fact of integer arithmetic, proved on its own"""
    s = z3.Solver()
    core.limit(s, 10000)
    s.add(*hyps)
    s.add(z3.Not(f))
    if s.check() != z3.unsat:
        raise Unsupported('lemma %s' % name)
    c.assume(z3.Implies(z3.And(*hyps), f))


def entrywise(c, run, Gp, p, q, a, b, nd, na):
    """check of the Hankel array: its entries are those of Gp = Z^* W X, given Gp has block Hankel structure"""
    G = V.poly_entry(Gp)
    h = z3.Function('h', z3.IntSort(), z3.IntSort(), z3.IntSort(), V.Num)

    def pre(i, j, s, t):
        """instance of the precondition"""
        return z3.Implies(z3.And(0 <= i, i < b.t, 0 <= j, j < a.t, 0 <= s, s < q.t, 0 <= t, t < p.t), z(G(z3.simplify(q.t * i + s), z3.simplify(p.t * j + t))) == h(i + j, s, t))

    def check(c, r, block, nb, nj, q2, p2):
        c.prove(z3.And(z(q2) == q.t, z(p2) == p.t), 'blocks have one row per output and one column per input')
        c.prove(z3.And(z(nb) == b.t, z(nj) == a.t), 'one block row per adjoint sample, one block column per direct sample')
        i, j, s, t = [c.int_(x, 0) for x in ('bi', 'bj', 'bs', 'bt')]
        c.assume(z3.And(i.t < b.t, j.t < a.t, s.t < q.t, t.t < p.t))
        B = block(i, j)
        I0, J0 = z3.IntVal(0), z3.IntVal(0)
        c.assume(pre(i.t, j.t, s.t, t.t))
        c.assume(pre(i.t + j.t, J0, s.t, t.t))
        c.assume(pre(b.t - 1, i.t + j.t - b.t + 1, s.t, t.t))
        ok = c.prove(z(elem(B)(s.t, t.t)) == z(G(z3.simplify(q.t * i.t + s.t), z3.simplify(p.t * j.t + t.t))), 'the Hankel array built from first inputs and last outputs = all inner products of adjoint with direct snapshots (entry of an arbitrary block)')
        if not ok:
            raise Failed()
        c.hyp(padd(r.poly, Gp, -1), 'equal entries: equal arrays')
    return check


def bpod_post(c, run, X, Z, W, Hk, U, S, Vs, direct, adjoint, Sd, Sa, dp, ap, rec):
    G = mul(H(Z), W, X)
    c.prove_mat(mat(Hk), G, 'Hankel array = inner products of adjoint with direct snapshots')
    D = diag_poly(S)
    c.prove_mat(mul(G, mat(Vs)), mul(mat(U), D), 'Hankel array times right singular vectors')
    c.prove_mat(mul(H(G), mat(U)), mul(mat(Vs), D), 'conjugate-transposed Hankel array times left singular vectors')
    c.prove_mat(mul(H(mat(U)), mat(U)), ID, 'left singular vectors orthonormal')
    c.prove_mat(mul(H(mat(Vs)), mat(Vs)), ID, 'right singular vectors orthonormal')
    rt, sq = diag_poly(V.power(S, Fr(-1, 2))), diag_poly(V.power(S, Fr(1, 2)))
    fd, fa = mul(X, mat(Vs), rt), mul(Z, mat(U), rt)
    c.prove_mat(mul(H(fa), W, fd), ID, 'adjoint and direct modes are biorthonormal')
    c.prove_mat(direct, mul(fd, Sd), 'direct modes = direct snapshots times R S^-1/2 [:, indices]')
    c.prove_mat(adjoint, mul(fa, Sa), 'adjoint modes = adjoint snapshots times L S^-1/2 [:, indices]')
    c.prove_mat(mat(dp), mul(sq, H(mat(Vs))), 'direct projection coefficients = S^1/2 R^*')
    c.prove_mat(mat(ap), mul(sq, H(mat(U))), 'adjoint projection coefficients = S^1/2 L^*')
    c.prove_mat(mat(dp), mul(H(fa), W, X), 'direct projection coefficients = inner products of adjoint modes with direct snapshots')
    c.prove_mat(mat(ap), mul(H(fd), W, Z), 'adjoint projection coefficients = inner products of direct modes with adjoint snapshots')


def arrays(I, c, run):
    cfg = run.cfg
    dec_contracts(run)
    n = c.int_('n', 1)
    p, q, a, b, nd, na = setting(I, c, run, n)
    X, Z = matrix('X', n, nd, frozen=True), matrix('Z', n, na, frozen=True)
    w, W = the_weights(c, cfg['weights'], n)
    G = mul(H(Z.poly), W, X.poly)
    run.contracts['util:Hankel_chunks'] = hankel_contract(entrywise(c, run, G, p, q, a, b, nd, na))
    at, rt = tol(c, cfg['atol'], 'atol'), tol(c, cfg['rtol'], 'rtol')
    di, ai = indices(c, cfg['di'], 'di'), indices(c, cfg['ai'], 'ai')
    if cfg.get('default'):
        at, rt = 1e-13, None
        kw = dict(inner_product_weights=w)
    else:
        kw = dict(num_inputs=p, num_outputs=q, direct_mode_indices=di, adjoint_mode_indices=ai, inner_product_weights=w, atol=at, rtol=rt)
    r = I.call(I.module('bpod').env['compute_BPOD_arrays'], [X, Z], kw)
    S = r.sing_vals
    K = S.shape_[0]
    ok_kept(c, run, kept(c, 'svd', G, at, rt), 'S', S)
    bpod_post(c, run, X.poly, Z.poly, W, r.Hankel_array, r.L_sing_vecs, S, r.R_sing_vecs, mat(r.direct_modes), mat(r.adjoint_modes), sel_of(c, di, K), sel_of(c, ai, K), r.direct_proj_coeffs, r.adjoint_proj_coeffs, None)
    no_mutation(c, run)


def bpod_handles(I, c, run):
    cfg = run.cfg
    dec_contracts(run)
    n = c.int_('n', 1)
    p, q, a, b, nd, na = setting(I, c, run, n)
    W = matrix('W', n, n, herm=True).poly
    vsh = VSH(c, W)
    vsh.install(run)
    hx, hz = handles(c, 'X', n, nd), handles(c, 'Z', n, na)
    X, Z = hx.meta['handles'], hz.meta['handles']
    G = mul(H(Z), W, X)
    run.contracts['util:Hankel_chunks'] = hankel_contract(entrywise(c, run, G, p, q, a, b, nd, na))
    at, rt = tol(c, cfg['atol'], 'atol'), tol(c, cfg['rtol'], 'rtol')
    kw = dict(num_inputs=p, num_outputs=q, atol=at, rtol=rt)
    if cfg.get('default'):
        at, rt, kw = 1e-13, None, {}
    inds = {k: indices(c, 'array', k) for k in ('direct', 'adjoint')}
    outs = {k: handles(c, 'modes_' + k, n, inds[k].shape_[0]) for k in inds}
    if cfg.get('prior'):
        nd0, na0 = c.int_('nd0', 1), c.int_('na0', 1)
        hx0, hz0 = handles(c, 'X0', n, nd0), handles(c, 'Z0', n, na0)
        i0 = indices(c, 'array', 'i0')
        o0 = handles(c, 'modes0', n, i0.shape_[0])
        run.contracts['util:Hankel_chunks'] = either(run.contracts['util:Hankel_chunks'], lambda I, fn, args, kw: matrix('Hankel0', na0, nd0))

    first = dict(atol=tol(c, 'sym', 'atol0'), rtol=tol(c, 'sym', 'rtol0')) if cfg.get('redo') else None

    def session(I, who):
        B = I.call(I.module('bpod').env['BPODHandles'], [], dict(inner_product=vsh.ipf))
        g = lambda k: I.getattr(B, k)
        if cfg.get('prior'):
            # the object has been used with other data before
            run.which = 1
            I.call(g('compute_decomp'), [hx0, hz0], {})
            I.call(g('compute_direct_proj_coeffs'), [], {})
            I.call(g('compute_adjoint_proj_coeffs'), [], {})
            I.call(g('compute_direct_modes'), [i0, o0], {})
            I.call(g('compute_adjoint_modes'), [i0, o0], {})
            run.which = 0
        if cfg.get('redo'):
            # the decomposition of the same data, first with other tolerances
            I.call(g('compute_decomp'), [hx, hz], dict(kw, **first))
            I.call(g('compute_direct_proj_coeffs'), [], {})
            I.call(g('compute_adjoint_proj_coeffs'), [], {})
            for k in inds:
                I.call(g('compute_%s_modes' % k), [inds[k], outs[k]], {})
        if cfg.get('redo') == 'SVD':
            r = None
            I.call(g('compute_SVD'), [], dict(atol=at, rtol=rt))
        else:
            r = I.call(g('compute_decomp'), [hx, hz], dict(kw))
        S, U, Vs = g('sing_vals'), g('L_sing_vecs'), g('R_sing_vecs')
        if r is not None:
            prove_diag(c, r[0], diag_poly(S), who + 'returned singular values are the stored ones')
            c.prove_mat(mat(r[1]), mat(U), who + 'returned left singular vectors are the stored ones')
            c.prove_mat(mat(r[2]), mat(Vs), who + 'returned right singular vectors are the stored ones')
        ok_kept(c, run, kept(c, 'svd', G, at, rt), 'S', S)
        K = S.shape_[0]
        modes, sels = {}, {}
        for k, meth, arg, hs in (('direct', 'compute_direct_modes', 'direct_vec_handles', hx), ('adjoint', 'compute_adjoint_modes', 'adjoint_vec_handles', hz)):
            sels[k] = sel_of(c, inds[k], K)
            del vsh.puts[:]
            kw2 = {}
            if cfg['again']:
                # as for an object restored from a stored decomposition
                I.setattr(B, arg, None)
                kw2 = {arg: hs}
            I.call(g(meth), [inds[k], outs[k]], kw2)
            check_put(c, run, vsh, outs[k])
            modes[k] = vsh.puts[0][1]
        dp, ap = I.call(g('compute_direct_proj_coeffs'), [], {}), I.call(g('compute_adjoint_proj_coeffs'), [], {})
        bpod_post(c, run, X, Z, W, g('Hankel_array'), U, S, Vs, modes['direct'], modes['adjoint'], sels['direct'], sels['adjoint'], dp, ap, None)
        for x, y in (('direct_proj_coeffs', dp), ('adjoint_proj_coeffs', ap)):
            c.prove_mat(mat(g(x)), mat(y), who + 'stored %s are the returned ones' % x)
    each_worker(I, c, run, vsh, session)
    no_mutation(c, run)


def either(*fs):
    """the contract for the data in use"""
    def f(I, fn, args, kw):
        return fs[getattr(ctx().run, 'which', 0)](I, fn, args, kw)
    return f


SEL = [dict(di=x, ai=y) for x in (None, 'array') for y in (None, 'array')]
units('C10', arrays, 'compute_BPOD_arrays', cross(TOLS, SEL, [dict(weights=w, mpi=False) for w in ('none', '1d', '2d')]))
units('C10', bpod_handles, 'BPODHandles', cross(TOLS, [dict(mpi=False, again=g) for g in (False, True)]))
units('C10', arrays, 'compute_BPOD_arrays defaults', [dict(weights='none', mpi=False, default=True, di=None, ai=None, atol=None, rtol=None)])
units('C10', bpod_handles, 'BPODHandles defaults', [dict(mpi=False, again=False, default=True, atol=None, rtol=None)])
SYM = dict(atol='sym', rtol='sym', again=False)
units('C10', bpod_handles, 'BPODHandles used before', [dict(SYM, mpi=False, prior=True)])
units('C10', bpod_handles, 'BPODHandles on two ranks', [dict(SYM, mpi=True), dict(SYM, mpi=True, prior=True)])
units('C10', bpod_handles, 'BPODHandles decomposed again', [dict(SYM, mpi=False, redo='SVD')])
