from common import *


def gram_svd(I, f, args, kw):
    """util.svd (C08), and for a Gramian (Hermitian positive semidefinite) U = V and A = U S U^*, its dropped values being zero"""
    b = bind(I, f, args, kw)
    c = ctx()
    A = NPM.to_array(I, b['array'], copy=False)
    r = svd_contract(I, f, args, kw)
    rec = kept(c, 'svd', V.needpoly(A), b['atol'], b['rtol'])
    for X, pa, pq, nm in c.run_memo.get('gram', []):
        if not c.th.canon(padd(X, A.poly, -1)):
            c.hyp(padd(rec['U'], rec['V'], -1), 'singular vectors of a positive semidefinite array coincide')
            c.hyp(padd(X, mul(rec['U'], diag_poly(rec['S']), H(rec['U'])), -1), 'dropped singular values are zero')
            c.run.assumed.add('Gramians are positive semidefinite (stable system), so their left and right singular vectors coincide; singular values dropped by svd are zero')
    return r


def balanced(I, c, run):
    n, p, q = c.int_('n', 1), c.int_('p', 1), c.int_('q', 1)
    A, B, C_ = matrix('A', n, n, frozen=True), matrix('B', n, p, frozen=True), matrix('C', q, n, frozen=True)
    run.contracts['util:svd'] = gram_svd
    order = c.int_('order', 0) if run.cfg['order'] else None
    kw = {}
    if order is not None:
        kw['order'] = order
    if run.cfg['ret'] is not None:
        kw['return_sing_vals'] = run.cfg['ret']
    r = I.call(I.module('util').env['balanced_truncation'], [A, B, C_], kw)
    if len(r) != (4 if run.cfg['ret'] else 3):
        run.obligation(c, 'Hankel singular values are returned when asked for', False, 'frame', 0, '%d results' % len(r), None)
        return
    At, Bt, Ct = r[:3]
    g = c.run_memo.get('gram', [])
    Gc = [X for X, pa, pq, nm in g if not c.th.canon(padd(pa, A.poly, -1)) and not c.th.canon(padd(pq, mul(B.poly, H(B.poly)), -1))]
    Go = [X for X, pa, pq, nm in g if not c.th.canon(padd(pa, H(A.poly), -1)) and not c.th.canon(padd(pq, mul(H(C_.poly), C_.poly), -1))]
    run.obligation(c, 'both Gramians of the system are used: A X A^* - X + B B^* = 0 and A^* Y A - Y + C^* C = 0', bool(Gc and Go), 'frame', 0, '%d Lyapunov equations solved' % len(g), None)
    if not (Gc and Go):
        return
    Gc, Go = Gc[0], Go[0]
    rc, ro = kept(c, 'svd', Gc, 1e-13, None), kept(c, 'svd', Go, 1e-13, None)
    if rc is None or ro is None:
        raise Unsupported('factors of the Gramians')
    Lc = mul(rc['U'], diag_poly(V.power(rc['S'], Fr(1, 2))))
    Lo = mul(ro['U'], diag_poly(V.power(ro['S'], Fr(1, 2))))
    rec = kept(c, 'svd', mul(H(Lo), Lc), 1e-13, None)
    if rec is None:
        raise Unsupported('singular values of the product of the factors of the Gramians')
    K, E = rec['K'], rec['S']
    k2 = K if order is None else mknum(z3.If(order.t < z(K), order.t, z(K)))
    S = one((('S', V.sel_interval(0, k2, K), False),))
    ih = diag_poly(V.power(E, Fr(-1, 2)))
    SL, SR = mul(Lo, rec['U'], ih, S), mul(Lc, rec['V'], ih, S)
    c.prove_mat(mul(H(SL), SR), ID, 'the projection is oblique: S_L^* S_R = I')
    c.prove_mat(mul(H(SL), Gc, SL), mul(T(S), diag_poly(E), S), 'controllability Gramian of the transformed system = Hankel singular values')
    c.prove_mat(mul(H(SR), Go, SR), mul(T(S), diag_poly(E), S), 'observability Gramian of the transformed system = Hankel singular values')
    c.prove_mat(mat(At), mul(H(SL), A.poly, SR), 'A of the reduced system = S_L^* A S_R')
    c.prove_mat(mat(Bt), mul(H(SL), B.poly), 'B of the reduced system = S_L^* B')
    c.prove_mat(mat(Ct), mul(C_.poly, SR), 'C of the reduced system = C S_R')
    prove_shape(c, At, (k2, k2), 'number of states of the reduced system')
    prove_shape(c, Bt, (k2, p), 'inputs of the reduced system')
    prove_shape(c, Ct, (q, k2), 'outputs of the reduced system')
    if run.cfg['ret']:
        prove_diag(c, r[3], diag_poly(E), 'returned values are the Hankel singular values')
    no_mutation(c, run)


def system(c, stable=True):
    n, p, q = c.int_('n', 1), c.int_('p', 1), c.int_('q', 1)
    return n, p, q, matrix('A', n, n, frozen=True), matrix('B', n, p, frozen=True), matrix('C', q, n, frozen=True)


def check_system(c, run, s, A, B, C_):
    c.prove_mat(s.A.poly, A.poly, 'simulated system has the given A')
    c.prove_mat(s.B.poly, B.poly, 'simulated system has the given B')
    c.prove_mat(s.C.poly, C_.poly, 'simulated system has the given C')
    c.prove_mat(s.D.poly, {}, 'no feed-through')
    run.obligation(c, 'one sample per step', s.dt in (1, 1.0, True), 'frame', 0, 'dt = %r' % (s.dt,), None)


def lsim(I, c, run):
    n, p, q, A, B, C_ = system(c)
    T_ = c.int_('steps', 1)
    u = matrix('u', T_, p, frozen=True)
    x0 = V.matrix('x0', n, 1, frozen=True) if run.cfg['x0'] else None
    if x0 is not None:
        x0 = Arr((n,), poly=x0.poly, buf=x0.buf)
    y = I.call(I.module('util').env['lsim'], [A, B, C_, u] + ([x0] if x0 is not None else []), {})
    m = c.run_memo.get('dlsim', [])
    hit = [e for e in m if e[0] is y or isinstance(y, Arr) and y.poly is not None and not c.th.canon(padd(y.poly, e[0].poly, -1))]
    if not hit:
        raise Unsupported('outputs not from dlsim')
    _, s, u2, x2 = hit[0]
    check_system(c, run, s, A, B, C_)
    c.prove_mat(mat(u2), u.poly, 'simulated with the given inputs')
    if x0 is None:
        ok = x2 is None or isinstance(x2, Arr) and not c.th.canon(x2.poly or {'x': 1})
    else:
        ok = isinstance(x2, Arr) and x2.poly is not None and not c.th.canon(padd(x2.poly, x0.poly, -1))
    run.obligation(c, 'simulated from the given initial state', ok, 'frame', 0, 'initial state %r' % (x2,), None)
    no_mutation(c, run)


def impulse(I, c, run):
    n, p, q, A, B, C_ = system(c)
    N = c.int_('num_time_steps', 0) if run.cfg['steps'] else None
    M = I.call(I.module('util').env['impulse'], [A, B, C_] + ([N] if N is not None else []), {})
    m = c.run_memo.get('dimpulse', [])
    if len(m) != 1 or not isinstance(M, Arr) or M.ndim != 3:
        raise Unsupported('responses not from dimpulse')
    f, s, _ = m[0]
    check_system(c, run, s, A, B, C_)
    if N is None:
        N = M.shape_[0]
    prove_shape(c, M, (N, q, p), 'one array of outputs by inputs for every step')
    k, i, j = c.int_('k', 0), c.int_('i', 0), c.int_('j', 0)
    c.assume(z3.And(k.t < z(N), i.t < q.t, j.t < p.t))
    v = elem(M)(k.t, i.t, j.t)
    c.prove(z(v) == f(k.t, i.t, j.t), 'response at step k is C A^k B')
    no_mutation(c, run)


def random_system(I, c, run):
    n, p, q = c.int_('n', 1), c.int_('p', 1), c.int_('q', 1)
    A, B, C_ = I.call(I.module('util').env[run.cfg['f']], [n, p, q], {})
    prove_shape(c, A, (n, n), 'requested number of states')
    prove_shape(c, B, (n, p), 'requested number of inputs')
    prove_shape(c, C_, (q, n), 'requested number of outputs')
    inv = c.run_memo.get('inv', [])
    if len(inv) != 1:
        raise Unsupported('similarity transformation')
    T_, Ti = inv[0][0], inv[0][1].poly
    # the dynamics in the transformed coordinates
    D = c.reduced(mul(T_, mat(A), Ti))
    names = sorted(set(l[1][0] for (m, w) in D for l in w if l[0] == 'D'))
    ok = len(names) == 1 and all(len(w) == 1 and w[0][0] == 'D' and w[0][2] == 1 for (m, w) in D) and len(D) == 1 and not list(D)[0][0]
    run.obligation(c, 'the dynamics are similar to a diagonal array', ok, 'algebra', 0, 'transformed dynamics %s' % core.algebra.show(c.th, D)[:300], None)
    if not ok:
        return
    f = c.th.vecs[names[0]]['fn']
    co = z(list(D.values())[0])
    i = c.int_('i', 0)
    c.assume(i.t < n.t)
    v = co * f(i.t)
    if run.cfg['f'] == 'drss':
        c.prove(z3.And(v < 1, v > -1), 'eigenvalues within the unit disc')
    else:
        c.prove(v <= 0, 'eigenvalues in the closed left half plane')
    run.obligation(c, 'the system is real', A.dtype == B.dtype == C_.dtype == 'real', 'frame', 0, '', None)


units('C17', balanced, 'balanced_truncation', product(order=[False, True], ret=[None, False, True]))
units('C17', lsim, 'lsim', product(x0=[False, True]))
units('C17', impulse, 'impulse', product(steps=[False, True]))
units('C17', random_system, 'random systems', product(f=['drss', 'rss']))
