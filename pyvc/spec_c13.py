from common import *
from spec_c09 import cross
import spmd
import vecs


RESULTS = ('A_reduced', 'B_reduced', 'C_reduced')


class Unread(object):
    """a result stored by an earlier call: no later call may depend on it"""
    def __repr__(self):
        return 'result of an earlier call'


def same_value(c, a, b):
    if a is b or type(a) is type(b) and isinstance(a, (int, float, str, bool, type(None))) and a == b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        if not all(c.valid(z(x) == z(y)) for x, y in zip(a.shape_, b.shape_)):
            return False
        if a.spec is not None and b.spec is not None:
            return a.spec == b.spec
        return a.poly is not None and b.poly is not None and c.mat_zero(padd(a.poly, b.poly, -1))[0]
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.fn is b.fn
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls:
        return same_state(c, a, b)
    return False


def same_state(c, a, b, skip=RESULTS):
    ka = set(a.attrs) - set(skip)
    return ka == set(b.attrs) - set(skip) and all(same_value(c, a.attrs[k], b.attrs[k]) for k in ka)


def closure(I, c, run, make, ops, name):
    """every sequence of calls: results right after every sequence of up to three calls, and the state reached by two calls is
    one reached by at most one call (results aside), so longer sequences repeat shorter ones"""
    states = {}
    for length in (0, 1, 2, 3):
        for seq in sequences(sorted(ops), length):
            o = make()
            for k, op in enumerate(seq):
                ops[op](o, '%s after %s' % (op, ','.join(seq[:k]) or 'construction') if k == length - 1 else None)
                for r in RESULTS:
                    o.attrs[r] = Unread()
            states[seq] = o
    for seq in states:
        if len(seq) == 2 and not any(same_state(c, states[seq], states[s]) for s in states if len(s) < 2):
            raise Unsupported('%s: the state after %s is a new one: sequences of more than three calls are not covered' % (name, seq))


def sequences(ops, n):
    out = [()]
    for _ in range(n):
        out = [s + (o,) for s in out for o in ops]
    return out


def galerkin_post(c, G, P, R, want, ortho, name):
    """R: reduced operator; want = Psi^* W (operator applied)"""
    if name is None:
        return
    if ortho:
        c.prove_mat(mat(R), want, name + ' = Psi^* W (operator on the vectors) for an orthonormal basis')
    else:
        c.prove_mat(mul(G, mat(R)), want, '(Psi^* W Phi) %s = Psi^* W (operator on the vectors)' % name)


def c_post(c, R, n_out, k, at, name):
    if name is None:
        return
    prove_shape(c, R, (n_out, k), name + ': one row per output, one column per basis vector')
    i, j = c.int_('i', 0), c.int_('j', 0)
    c.prove(z3.Implies(z3.And(i.t < z(n_out), j.t < z(k)), z(elem(R)(i.t, j.t)) == z(at(i.t, j.t))), name + ' entry (i, j) = output i of basis vector j')


def arrays(I, c, run):
    cfg = run.cfg
    n, k, q, p = c.int_('n', 1), c.int_('k', 1), c.int_('q', 1), c.int_('p', 1)
    Phi = matrix('Phi', n, k, frozen=True)
    Psi = Phi if cfg['adjoint'] is None else matrix('Psi', n, k, frozen=True)
    w, W = the_weights(c, cfg['weights'], n)
    G = mul(H(Psi.poly), W, Phi.poly)
    cls = I.module('ltigalerkinproj').env['LTIGalerkinProjectionArrays']
    kw = dict(inner_product_weights=w)
    if cfg['adjoint'] == 'given':
        kw['adjoint_basis_vecs'] = Psi
    if cfg['ortho']:
        kw['is_basis_orthonormal'] = True
    make = lambda: I.call(cls, [Phi], dict(kw))
    rp = run.require_inv = []
    cnt = [0]

    def fresh(rows, cols, base):
        return matrix(base, rows, cols, frozen=True)

    def A(o, name):
        X = fresh(n, k, 'APhi')
        r = I.call(I.getattr(o, 'reduce_A'), [X], {})
        galerkin_post(c, G, None, r, mul(H(Psi.poly), W, X.poly), cfg['ortho'], name and 'A_reduced: ' + name)
        same(c, I, o, 'A_reduced', r, name)

    def B(o, name):
        X = fresh(n, q, 'BI')
        r = I.call(I.getattr(o, 'reduce_B'), [X], {})
        galerkin_post(c, G, None, r, mul(H(Psi.poly), W, X.poly), cfg['ortho'], name and 'B_reduced: ' + name)
        same(c, I, o, 'B_reduced', r, name)

    def Cc(o, name):
        X = fresh(p, k, 'CPhi')
        r = I.call(I.getattr(o, 'reduce_C'), [X], {})
        c_post(c, r, p, k, elem(X), name and 'C_reduced: ' + name)
        same(c, I, o, 'C_reduced', r, name)

    closure(I, c, run, make, dict(A=A, B=B, C=Cc), 'Galerkin projection of arrays')
    # the whole model at once; one output given as a 1D array
    o = make()
    XA, XB = fresh(n, k, 'APhi'), fresh(n, q, 'BI')
    XC = fresh(p, k, 'CPhi')
    r = I.call(I.getattr(o, 'compute_model'), [XA, XB, XC], {})
    galerkin_post(c, G, None, r[0], mul(H(Psi.poly), W, XA.poly), cfg['ortho'], 'A_reduced of compute_model')
    galerkin_post(c, G, None, r[1], mul(H(Psi.poly), W, XB.poly), cfg['ortho'], 'B_reduced of compute_model')
    c_post(c, r[2], p, k, elem(XC), 'C_reduced of compute_model')
    y = vec1d(c, 'c', k)
    r = I.call(I.getattr(o, 'reduce_C'), [y], {})
    c_post(c, r, 1, k, lambda i, j: elem(y)(j), 'C_reduced of a single output given as a 1D array')
    no_mutation(c, run)


def vec1d(c, name, k, frozen=True):
    f = z3.Function('ent_' + c.fresh(name), z3.IntSort(), V.Num)
    return Arr((k,), elem=lambda i: SNum(f(z(i))), dtype='complex', name=name, buf=V.Buf(name, frozen))


def same(c, I, o, attr, r, name):
    if name is None:
        return
    s = I.getattr(o, attr)
    c.run.obligation(c, 'stored %s is the returned one' % attr, s is r or same_value(c, s, r), 'algebra', 0, 'attribute %s' % attr, None)


def handle_objs(I, c, run):
    cfg = run.cfg
    n, k, q, p = c.int_('n', 1), c.int_('k', 1), c.int_('q', 1), c.int_('p', 1)
    W = matrix('W', n, n, herm=True).poly
    vsh = VSH(c, W)
    vsh.install(run)
    hphi = handles(c, 'Phi', n, k)
    hpsi = hphi if cfg['adjoint'] is None else handles(c, 'Psi', n, k)
    Phi, Psi = hphi.meta['handles'], hpsi.meta['handles']
    G = mul(H(Psi), W, Phi)
    kw = {}
    if cfg['adjoint'] == 'given':
        kw['adjoint_basis_vec_handles'] = hpsi
    if cfg['ortho']:
        kw['is_basis_orthonormal'] = True
    data, at = [], [0]

    def given(make):
        """the k-th data of a session: the same on all ranks"""
        if at[0] == len(data):
            data.append(make())
        at[0] += 1
        return data[at[0] - 1]

    def outputs():
        f = z3.Function(c.fresh('outs'), z3.IntSort(), z3.IntSort(), V.Num)
        return f, SList(k, lambda j: Arr((p,), elem=lambda i: SNum(f(z(j), z(i))), buf=V.Buf('output', True)), name='C_on_basis_vecs')

    def session(I, who):
        at[0] = 0
        cls = I.module('ltigalerkinproj').env['LTIGalerkinProjectionHandles']
        make = lambda: I.call(cls, [vsh.ipf, hphi], dict(kw))

        def op(meth, attr, cols, base):
            def f(o, name):
                X = given(lambda: handles(c, base, n, cols))
                r = I.call(I.getattr(o, meth), [X], {})
                galerkin_post(c, G, None, r, mul(H(Psi), W, X.meta['handles']), cfg['ortho'], name and who + attr + ': ' + name)
                same(c, I, o, attr, r, name)
            return f

        def Cc(o, name):
            f, X = given(outputs)
            r = I.call(I.getattr(o, 'reduce_C'), [X], {})
            c_post(c, r, p, k, lambda i, j: f(j, i), name and who + 'C_reduced: ' + name)
            same(c, I, o, 'C_reduced', r, name)

        closure(I, c, run, make, dict(A=op('reduce_A', 'A_reduced', k, 'APhi'), B=op('reduce_B', 'B_reduced', q, 'BI'), C=Cc), 'Galerkin projection of handles')
        o = make()
        XA, XB = given(lambda: handles(c, 'APhi', n, k)), given(lambda: handles(c, 'BI', n, q))
        f, XC = given(outputs)
        r = I.call(I.getattr(o, 'compute_model'), [XA, XB, XC], {})
        galerkin_post(c, G, None, r[0], mul(H(Psi), W, XA.meta['handles']), cfg['ortho'], who + 'A_reduced of compute_model')
        galerkin_post(c, G, None, r[1], mul(H(Psi), W, XB.meta['handles']), cfg['ortho'], who + 'B_reduced of compute_model')
        c_post(c, r[2], p, k, lambda i, j: f(j, i), who + 'C_reduced of compute_model')
    each_worker(I, c, run, vsh, session)
    no_mutation(c, run)


def derivs_arrays(I, c, run):
    n, k = c.int_('n', 1), c.int_('k', 1)
    X, Y = matrix('X', n, k, frozen=True), matrix('Y', n, k, frozen=True)
    for A, t in ((X, run.cfg.get('vecs', 'complex')), (Y, run.cfg.get('adv', 'complex'))):
        A.dtype = t
    dt = c.real_('dt')
    c.assume(dt.t != 0)
    r = I.call(I.module('ltigalerkinproj').env['compute_derivs_arrays'], [X, Y, dt], {})
    c.prove_mat(V.th().add({}, mat(r), Fr(1), ((dt.t.decl().name(), 1),)), padd(Y.poly, X.poly, -1), 'dt times the derivatives = advanced vectors minus vectors')
    no_mutation(c, run)


def derivs_handles(I, c, run):
    cfg = run.cfg
    if cfg['mpi']:
        spmd.install(I, c, run)
    run.contracts['parallel:find_assignments'] = spmd.assignments_contract
    n, k = c.int_('n', 1), c.int_('k', 1)
    hx, hy = handles(c, 'X', n, k), handles(c, 'Y', n, k)
    out = handles(c, 'D', n, k)
    dt = c.real_('dt')
    c.assume(dt.t != 0)
    I.call(I.module('ltigalerkinproj').env['compute_derivs_handles'], [hx, hy, out, dt], {})
    P, r = I.module('parallel').env['_num_MPI_workers'], I.module('parallel').env['_rank']
    cut, P2, n2 = c.run_memo['cuts'][0]
    lo, hi = cut(z(r)), cut(z3.simplify(z(r) + 1))
    c.assume(z3.And(lo <= hi))
    X, Y = hx.meta['handles'], hy.meta['handles']
    loops_ = [e for e in c.events if e[0] == 'forall']
    puts = [e for e in c.events if e[0] == 'put']
    c.prove(not puts, 'nothing is put outside the loop over the own share of the vectors')
    if not c.decide(lo < hi):
        c.prove(not loops_, 'a worker without vectors puts nothing')
        return
    it = [e for e in loops_ if any(x[0] == 'put' for x in flat(e[3]))]
    c.prove(len(it) == 1, 'one loop puts the derivatives')
    _, i, m, body = it[0]
    c.prove(z(m) == hi - lo, 'one iteration for each vector of the own share')
    ps = [e for e in body if e[0] == 'put']
    c.prove(len(ps) == 1 and len([e for e in flat(body) if e[0] == 'put']) == 1, 'one put for each vector of the own share')
    _, hl, at, v, pc = ps[0]
    run.obligation(c, 'derivatives go to the derivative handles', hl is out, 'frame', 0, hl.name, None)
    c.prove(z(at) == lo + i.t, 'iteration i writes handle number i of the own share')
    S = one(th_sel(c, at, k))
    c.prove_mat(V.th().add({}, v.poly, Fr(1), ((dt.t.decl().name(), 1),)), mul(padd(Y, X, -1), S), 'dt times the derivative = advanced vector minus vector')
    # the shares of all workers tile 0..k: lemma over the contract of find_assignments
    a, b = z3.Int('ra'), z3.Int('rb')
    j = z3.Int('jj')
    c.prove(z3.Implies(z3.And(0 <= a, a < b, b < z(P), cut(a) <= j, j < cut(a + 1), cut(b) <= j, j < cut(b + 1), cut(a + 1) <= cut(b)), False), 'shares of different workers do not overlap')
    no_mutation(c, run)


def th_sel(c, at, k):
    return V.th().norm_word((('S', V.sel_interval(at, mknum(z(at) + 1), k), False),))


def flat(ev):
    out = []
    for e in ev:
        if e[0] == 'forall':
            out += flat(e[3])
        else:
            out.append(e)
    return out


def refuse(I, c, run):
    """different numbers of handles are refused before anything is put"""
    cfg = run.cfg
    n = c.int_('n', 1)
    k = [c.int_(x, 0) for x in 'kab']
    hs = [handles(c, x, n, m) for x, m in zip('XYD', k)]
    dt = c.real_('dt')
    c.assume(z3.Or(k[0].t != k[1].t, k[0].t != k[2].t))
    try:
        I.call(I.module('ltigalerkinproj').env['compute_derivs_handles'], hs + [dt], {})
        c.prove(False, 'different numbers of handles are refused')
    except PyRaise as e:
        c.prove(not c.events, 'nothing happens to the handles before the refusal')


G = [dict(adjoint=a, ortho=o, mpi=False) for a in (None, 'given') for o in (False, True)]
units('C13', arrays, 'LTIGalerkinProjectionArrays', cross(G, [dict(weights=w) for w in ('none', '1d', '2d')]))
units('C13', handle_objs, 'LTIGalerkinProjectionHandles', G)
units('C13', handle_objs, 'LTIGalerkinProjectionHandles on two ranks', [dict(g, mpi=True) for g in G])
units('C13', derivs_arrays, 'compute_derivs_arrays', [dict(mpi=False)] + [dict(mpi=False, vecs=a, adv=b) for a in ('int', 'real', 'complex') for b in ('int', 'real', 'complex')])
units('C13', derivs_handles, 'compute_derivs_handles', [dict(mpi=False), dict(mpi=True)])
units('C13', refuse, 'compute_derivs_handles refuses', [dict(mpi=False)])
