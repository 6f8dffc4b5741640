from common import *

KEEP = dict(nonzero=True)


def cond(v, big, at, rt, low=None):
    """the value of magnitude v is to be kept"""
    out = [z3.BoolVal(True)]
    if at is not None:
        out.append(v > z(at))
    if rt is not None:
        out.append(v / big > z(rt))
    if low is not None:
        out.append(low)
    return z3.And(*out)


def mag(t):
    return z3.If(t >= 0, t, -t)


def svd(I, c, run):
    m, n = c.int_('m', 1), c.int_('n', 1)
    A = matrix('A', m, n, frozen=True)
    at, rt = tol(c, run.cfg['atol'], 'atol'), tol(c, run.cfg['rtol'], 'rtol')
    if run.cfg.get('default'):
        kw, at, rt = {}, 1e-13, None
    else:
        kw = dict(atol=at, rtol=rt)
    U, S, Vs = I.call(I.module('util').env['svd'], [A], kw)
    full = c.run_memo.get('np_svd')
    if not full or c.mat_zero(padd(full[0]['A'], A.poly, -1))[0] is False or len(full) != 1:
        raise Unsupported('one decomposition of the array')
    f, k = full[0]['f'], full[0]['k']
    K = S.shape_[0]
    prove_shape(c, U, (m, K), 'one left singular vector per singular value')
    prove_shape(c, Vs, (n, K), 'one right singular vector per singular value')
    c.prove(z3.And(0 <= z(K), z(K) <= z(k)), 'at most min(m, n) values')
    D = diag_poly(S)
    c.prove_mat(mul(A.poly, mat(Vs)), mul(mat(U), D), 'A V = U S')
    c.prove_mat(mul(H(A.poly), mat(U)), mul(mat(Vs), D), 'A^* U = V S')
    c.prove_mat(mul(H(mat(U)), mat(U)), ID, 'left singular vectors orthonormal')
    c.prove_mat(mul(H(mat(Vs)), mat(Vs)), ID, 'right singular vectors orthonormal')
    i, j = c.int_('i', 0), c.int_('j', 0)
    c.assume(i.t < z(k))
    e = elem(S)
    c.prove(z3.Implies(i.t < z(K), z(e(i.t)) == f(i.t)), 'kept values are the leading singular values, in order')
    c.prove((i.t < z(K)) == cond(f(i.t), f(0), at, rt), 'a singular value is kept if and only if it exceeds the tolerances')
    c.prove(z3.Implies(z3.And(j.t <= i.t, i.t < z(K)), z(e(j.t)) >= z(e(i.t))), 'singular values in decreasing order')
    if at is not None or rt is not None:
        c.prove(z3.Implies(i.t < z(K), z(e(i.t)) > 0), 'kept singular values are positive')
    no_mutation(c, run)


def eigh(I, c, run):
    n = c.int_('n', 1)
    A = matrix('A', n, n, frozen=True, herm=True)
    at, rt, pd = tol(c, run.cfg['atol'], 'atol'), tol(c, run.cfg['rtol'], 'rtol'), run.cfg['pd']
    if run.cfg.get('default'):
        kw, at, rt = {}, 1e-13, None
    else:
        kw = dict(atol=at, rtol=rt, is_positive_definite=pd)
    E, Q = I.call(I.module('util').env['eigh'], [A], kw)
    full = c.run_memo.get('np_eigh')
    if not full or len(full) != 1 or not c.mat_zero(padd(full[0]['A'], A.poly, -1))[0]:
        raise Unsupported('one decomposition of the array')
    f = full[0]['f']
    K = E.shape_[0]
    prove_shape(c, Q, (n, K), 'one eigenvector per eigenvalue')
    c.prove(z3.And(0 <= z(K), z(K) <= n.t), 'at most n values')
    D = diag_poly(E)
    c.prove_mat(mul(A.poly, mat(Q)), mul(mat(Q), D), 'A V = V E')
    c.prove_mat(mul(H(mat(Q)), mat(Q)), ID, 'eigenvectors orthonormal')
    e = elem(E)
    i, j, s = c.int_('i', 0), c.int_('j', 0), c.int_('s', 0)
    c.assume(z3.And(i.t < z(n), j.t < z(n), s.t < z(n)))
    big, least = z3.Real('largest'), z3.Real('least')
    bw, lw = z3.Ints('bw lw')
    u = z3.Int('u')
    # the largest magnitude and the least eigenvalue
    c.assume(z3.And(0 <= bw, bw < z(n), big == mag(f(bw)), 0 <= lw, lw < z(n), least == f(lw)))
    c.facts.append(z3.ForAll([u], z3.Implies(z3.And(0 <= u, u < z(n)), z3.And(mag(f(u)) <= big, f(u) >= least))))
    perms = c.run_memo.get('perms')
    if not perms:
        raise Unsupported('the order of the eigenvalues')
    q = perms[0][1]
    c.hints += [q(bw), q(lw), q(s.t), z3.simplify(n.t - 1 - q(bw)), z3.simplify(n.t - 1 - q(lw)), z3.simplify(n.t - 1 - q(s.t))]

    def keep(v):
        low = z3.Implies(least < 0, mag(v) > -least) if pd else None
        return cond(mag(v), big, at, rt, low)
    ei, ej = z(e(i.t)), z(e(j.t))
    c.prove(z3.Implies(z3.And(j.t <= i.t, i.t < z(K)), mag(ej) >= mag(ei)), 'eigenvalues in decreasing order of magnitude')
    c.prove(z3.Implies(i.t < z(K), keep(ei)), 'kept eigenvalues exceed the tolerances')
    # every eigenvalue that exceeds them is kept
    for p in (z3.simplify(z(n) - 1 - q(s.t)), q(s.t)):
        same = z(e(p)) == f(s.t)
        if run.fact_valid(c, z3.And(0 <= p, p < z(n), same)):
            c.assume(same)
            break
    else:
        raise Unsupported('the place of an eigenvalue')
    for N in c.run_memo.get('counts', []):
        g = z3.Implies(keep(f(s.t)), p < N)
        if run.fact_valid(c, g):
            c.assume(g)
    c.prove(z3.Implies(keep(f(s.t)), p < z(K)), 'every eigenvalue that exceeds the tolerances is kept, at its own place')
    if pd:
        c.prove(z3.Implies(z3.And(i.t < z(K), z3.BoolVal(at is not None or rt is not None)), ei > 0), 'kept eigenvalues of a positive definite array are positive')
        c.prove(z3.Implies(i.t < z(K), ei >= 0), 'no kept eigenvalue of a positive definite array is negative')
    no_mutation(c, run)


def eigb(I, c, run):
    n = c.int_('n', 1)
    A = matrix('A', n, n, frozen=True)
    sc = run.cfg['scale']
    args = [A] if sc == 'default' else [A, sc]
    f = I.module('util').env['eig_biorthog']
    if sc == 'other':
        try:
            I.call(f, [A, 'other'], {})
            run.obligation(c, 'an unknown scale choice is refused', False, 'frame', 0, 'no exception', None)
        except PyRaise as e:
            run.obligation(c, 'an unknown scale choice is refused', e.etype is ValueError, 'frame', 0, str(e), None)
        no_mutation(c, run)
        return
    E, R, L = I.call(f, args, {})
    m = c.run_memo.get('eig')
    if m is None:
        raise Unsupported('eigendecomposition')
    prove_shape(c, R, (n, n), 'right eigenvectors')
    prove_shape(c, L, (n, n), 'left eigenvectors')
    prove_shape(c, E, (n,), 'eigenvalues')
    D = diag_poly(E)
    c.prove_mat(mul(A.poly, mat(R)), mul(mat(R), D), 'A R = R E')
    c.prove_mat(mul(H(mat(L)), A.poly), mul(D, H(mat(L))), 'L^* A = E L^*')
    c.prove_mat(mul(H(mat(L)), mat(R)), ID, 'L^* R = I')
    if sc.lower() == 'right':
        c.prove_mat(mat(L), m['L'], 'left eigenvectors keep unit norm')
    else:
        c.prove_mat(mat(R), m['R'], 'right eigenvectors keep unit norm')
    no_mutation(c, run)


TOLS = [dict(atol=a, rtol=r) for a in (None, 'sym') for r in (None, 'sym')]
units('C08', svd, 'svd', [dict(t, nonzero=t['rtol'] is not None) for t in TOLS])
units('C08', svd, 'svd defaults', [dict(atol=None, rtol=None, default=True)])
units('C08', eigh, 'eigh', [dict(t, pd=p, nonzero=t['rtol'] is not None) for t in TOLS for p in (False, True)])
units('C08', eigh, 'eigh defaults', [dict(atol=None, rtol=None, pd=False, default=True)])
units('C08', eigb, 'eig_biorthog', [dict(scale=s) for s in ('left', 'right', 'LEFT', 'Right', 'default', 'other')])
