from common import *
import arrays


def markovs(c, name, dims, extra=()):
    """a real array of any size with that many dimensions"""
    f = z3.Function('markov_' + name, *([z3.IntSort()] * len(dims) + [V.Num]))
    a = Arr(dims, elem=lambda *i: SNum(f(*[z(k) for k in i])), dtype=ctx().run.cfg.get('type', 'real'), buf=V.Buf(name, True))
    return a, f


def need_hankel(c, r):
    if r is None or not isinstance(r, Arr) or r.meta.get('hist') is None and r.blocks is None:
        raise Unsupported('Hankel array of unknown structure')
    return r


def era(I, c, run):
    cfg = run.cfg
    dec_contracts(run)
    nd = cfg['nd']
    nt, q, p = c.int_('num_samples', 6), c.int_('num_outputs', 1), c.int_('num_inputs', 1)
    M, f = markovs(c, 'data', (nt, q, p)[:nd])
    if nd < 3:
        p = 1
    if nd < 2:
        q = 1
    even = mknum(z3.If(nt.t % 2 == 0, nt.t, nt.t - 1))
    default = mknum((z(even) - 2) / 4)
    mo, mc = default, default
    ns = c.int_('num_states', 1)
    quiet = c.int_('verbosity', 0) if not cfg['twice'] else 0
    if cfg['api'] == 'function':
        run.contracts['parallel:call_and_bcast'] = None
        run.contracts.pop('parallel:call_and_bcast')
        hold = {}
        cls = I.module('era').env['ERA']
        fn = I.module('era').env['compute_ERA_model']
        era_objs = []
        k, init = cls.find('__init__')
        r = I.call(fn, [M, ns], {})
        o = None
    else:
        kw, ckw = {}, {}
        if cfg['dims']:
            # which of the two dimensions come with the call ('c'), with the constructor ('i'), or not at all ('-')
            dm = {'call': 'cc', 'ctor': 'ii'}.get(cfg['dims'], cfg['dims'])
            given = [c.int_(n, 1) if w != '-' else default for n, w in zip(('mo', 'mc'), dm)]
            mo, mc = given
            c.assume(2 * (z(mo) + z(mc) - 1) <= z(even))
            c.assume(z(mo) + z(mc) + 2 <= z(even))
            for n, w, v in zip(('mo', 'mc'), dm, given):
                if w != '-':
                    (kw if w == 'c' else ckw)[n] = v
            for n, w in zip(('mo', 'mc'), dm):
                if w == 'c' and dm != 'c-' and dm != '-c':
                    ckw[n] = c.int_('other_' + n, 1)
        o = I.call(I.module('era').env['ERA'], [], dict(ckw, verbosity=quiet))
        if cfg['twice']:
            # the same object used before with other data
            nt2, q2, p2 = c.int_('earlier_samples', 6), c.int_('earlier_outputs', 1), c.int_('earlier_inputs', 1)
            M2, f2 = markovs(c, 'earlier', (nt2, q2, p2))
            mo2, mc2 = c.int_('mo2', 1), c.int_('mc2', 1)
            c.assume(z3.And(nt2.t % 2 == 0, 2 * (mo2.t + mc2.t - 1) <= nt2.t - 1, mo2.t + mc2.t + 2 <= nt2.t - 1))
            I.call(I.getattr(o, 'compute_model'), [M2, 1], dict(mo=mo2, mc=mc2))
            earlier = c.run_memo.pop('kept', None)
        r = I.call(I.getattr(o, 'compute_model'), [M, ns], kw)
    if not isinstance(r, tuple) or len(r) != 3:
        run.obligation(c, 'A, B and C are returned', False, 'frame', 0, repr(r), None)
        return
    A, B, C_ = r
    recs = [e for e in c.run_memo.get('kept', []) if e[0] == 'svd']
    if not recs and cfg['twice'] and earlier:
        run.obligation(c, "the decomposition is that of this call's data", False, 'post', 0, 'the earlier one is used, of other data', None)
        return
    if len(recs) != 1:
        raise Unsupported('singular values of the Hankel array')
    at_, rt_ = recs[0][2], recs[0][3]
    # util.svd's documented default: absolute 1e-13, no relative one
    keeps_all = [t is None or (isinstance(t, (int, float, Fr)) and t <= 1e-13) for t in (at_, rt_)]
    run.obligation(c, 'every singular value above rounding level is kept', all(keeps_all), 'post', 0, 'atol=%r rtol=%r' % (at_, rt_), None)
    rec = recs[0][5]
    U, W, E, K = rec['U'], rec['V'], rec['S'], rec['K']
    if o is None:
        # the Hankel arrays: what was decomposed, and what the reduced A is made of
        H1p, H2p = recs[0][1], None
        cands = c.run_memo.get('filled', [])
    H1 = o.attrs.get('Hankel_array') if o is not None else None
    H2 = o.attrs.get('Hankel_array2') if o is not None else None
    if o is None:
        H1 = next((a for a in cands if a.poly is not None and not c.th.canon(padd(a.poly, H1p, -1))), None)
        H2 = next((a for a in cands if a is not H1), None)
    H1, H2 = need_hankel(c, H1), need_hankel(c, H2)
    c.prove_mat(recs[0][1], H1.poly, 'the first Hankel array is decomposed')
    prove_shape(c, H1, (binop_('*', q, mo), binop_('*', p, mc)), 'size of the Hankel array: block rows and block columns as requested')
    prove_shape(c, H2, (binop_('*', q, mo), binop_('*', p, mc)), 'size of the second Hankel array')
    k = mknum(z3.If(ns.t < z(K), ns.t, z(K)))
    S = one((('S', V.sel_interval(0, k, K), False),))
    h, ih = diag_poly(V.power(E, Fr(1, 2))), diag_poly(V.power(E, Fr(-1, 2)))
    Sq = one((('S', V.sel_interval(0, q, binop_('*', q, mo)), False),))
    Sp = one((('S', V.sel_interval(0, p, binop_('*', p, mc)), False),))
    c.assume(z(binop_('*', q, mo)) >= z(q))
    c.assume(z(binop_('*', p, mc)) >= z(p))
    c.prove_mat(mat(A), mul(T(S), ih, H(U), H2.poly, W, ih, S), 'A = E^-1/2 U^* H2 V E^-1/2 of the kept singular triples')
    c.prove_mat(mat(B), mul(T(S), h, H(W), Sp), 'B = first columns of E^1/2 V^*')
    c.prove_mat(mat(C_), mul(T(Sq), U, h, S), 'C = first rows of U E^1/2')
    prove_shape(c, A, (k, k), 'as many states as requested, at most one per kept singular value')
    prove_shape(c, B, (k, p), 'one column of B per input')
    prove_shape(c, C_, (q, k), 'one row of C per output')
    # if the data are those of a system: H1 = O R, H2 = O A R, first block row of O is C, first block column of R is B
    n = c.int_('order', 1)
    As, na = V.new_atom('As', n, n)
    O, no = V.new_atom('Obs', binop_('*', q, mo), n)
    R, nr = V.new_atom('Ctr', n, binop_('*', p, mc))
    if cfg.get('type') != 'complex':
        for x in (na, no, nr):
            c.th.atoms[x]['real'] = True
    Bs, Cs = mul(R, Sp), mul(T(Sq), O)
    c.hyp(padd(H1.poly, mul(O, R), -1), 'data of a system: H1 = O R')
    c.hyp(padd(H2.poly, mul(O, As, R), -1), 'data of a system: H2 = O A R')
    SL, SR = mul(T(S), ih, H(U), O), mul(R, W, ih, S)
    c.prove_mat(mul(SL, SR), ID, 'lemma: the projection is oblique')
    c.prove_mat(mat(A), mul(SL, As, SR), 'lemma: A of the model is the projected A of the system')
    c.prove_mat(mat(B), mul(SL, Bs), 'lemma: B of the model is the projected B')
    c.prove_mat(mat(C_), mul(Cs, SR), 'lemma: C of the model is the projected C')
    full = c.decide(z3.And(z(k) == n.t, z3.Bool('enough_states')))
    if full:
        c.hyp(padd(mul(SR, SL), ID, -1), 'as many states as the order of the system: a one-sided inverse of a square array is two-sided')
        run.assumed.add('a one-sided inverse of a square array is two-sided')
        c.prove_mat(mul(mat(A), SL), mul(SL, As), 'lemma: with all states A^k S_L = S_L A_s^k (induction step)')
        c.prove_mat(mul(mat(C_), SL), Cs, 'lemma: with all states the model reproduces the Markov parameters (output)')
        return
    # blocks
    if not c.decide(z3.Bool('blocks')):
        no_mutation(c, run)
        return
    a, b, s, t = (c.int_(x, 0) for x in ('block_row', 'block_col', 's', 't'))
    c.assume(z3.And(a.t < z(mo), b.t < z(mc), s.t < z(q), t.t < z(p)))
    i, j = z3.simplify(a.t * z(q) + s.t), z3.simplify(b.t * z(p) + t.t)
    second = c.decide(z3.Bool('second'))
    src = z3.simplify(2 * (a.t + b.t) + (1 if second else 0))
    want = SNum(f(*[src, s.t, t.t][:nd]))
    nl = [z3.Implies(z(x) + 1 <= z(y), (z(x) + 1) * z(w) <= z(y) * z(w)) for x, y, w in ((a, mo, q), (b, mc, p))]
    arrays.final_entry(c, H2 if second else H1, (i, j), want, (a, b), 'block (i, j) is the Markov parameter at sample 2(i+j)' + ('+1' if second else ''), size=((a, q, s), (b, p, t)))


def sampled(I, c, run):
    cfg = run.cfg
    n, q, p = c.int_('num_times', 2), c.int_('num_outputs', 1), c.int_('num_inputs', 1)
    M, f = markovs(c, 'data', (n, q, p))
    nt = n if not cfg['short'] else c.int_('other_num_times', 2)
    ints = cfg.get('ints')
    t0, dt = (c.int_('t0'), c.int_('dt', 1)) if ints else (c.real_('t0'), c.real_('dt'))
    c.assume(dt.t > 0)
    g = z3.Function('time', z3.IntSort(), z3.RealSort())
    if cfg['even']:
        at = lambda i: SNum(t0.t + (z(i) if ints else z3.ToReal(z(i))) * dt.t)
    else:
        at = lambda i: SNum(g(z(i)))
    times = Arr((nt,), elem=at, dtype='int' if ints else 'real', buf=V.Buf('times', True))
    tol = c.real_('dt_tol') if cfg['tol'] else None
    if tol is not None:
        c.assume(tol.t > 0)
    c.assume(z(at(1)) > z(at(0)))
    try:
        r = I.call(I.module('era').env['make_sampled_format'], [times, M] + ([tol] if tol is not None else []), {})
    except PyRaise as e:
        if cfg['short'] and e.etype is RuntimeError:
            c.prove(z3.Not(nt.t == n.t), 'refused only when the sizes differ')
            return
        if not cfg['even'] and e.etype is ValueError:
            T_ = z(tol) if tol is not None else z(1e-6)
            i = z3.Int('any_step')
            d = z(at(i + 1)) - z(at(i)) - (z(at(1)) - z(at(0)))
            c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n.t - 1), z3.And(d <= T_, d >= -T_))))
            c.prove(z3.BoolVal(False), 'refused only when the spacing is uneven')
            return
        raise
    if cfg['short']:
        c.prove(nt.t == n.t, 'different sizes are refused')
        return
    steps, Mc = r
    prove_shape(c, steps, (mknum(2 * (n.t - 1)),), 'two entries per step')
    prove_shape(c, Mc, (mknum(2 * (n.t - 1)), q, p), 'two Markov parameters per step')
    k, s, t = c.int_('k', 0), c.int_('s', 0), c.int_('t', 0)
    c.assume(z3.And(k.t < n.t - 1, s.t < q.t, t.t < p.t))
    if not cfg['even']:
        T_ = z(tol) if tol is not None else z(1e-6)
        d = z(at(k.t + 1)) - z(at(k.t)) - (z(at(1)) - z(at(0)))
        c.prove(z3.And(d <= T_, d >= -T_), 'uneven spacing is refused')
    for o in (0, 1):
        arrays.equal(c, elem(Mc)(z3.simplify(2 * k.t + o), s.t, t.t), SNum(f(z3.simplify(k.t + o), s.t, t.t)), 'entry %s is the Markov parameter of its step' % ('2k' if not o else '2k+1'))
        if cfg['even']:
            arrays.equal(c, elem(steps)(z3.simplify(2 * k.t + o)), mknum(k.t + o), 'time step of entry %s' % ('2k' if not o else '2k+1'))
    run.obligation(c, 'time steps are integers', steps.dtype == 'int', 'frame', 0, steps.dtype, None)
    no_mutation(c, run)


units('C14', sampled, 'make_sampled_format', [dict(even=e, short=s, tol=t) for e, s, t in ((True, False, False), (True, False, True), (False, False, False), (False, False, True), (False, True, False))])


def binop_(op, a, b):
    return V.binop(op, a, b)


units('C14', era, 'ERA', [dict(api='class', nd=nd, dims=d, twice=False) for nd in (1, 2, 3) for d in (None, 'call', 'ctor')] + [dict(api='class', nd=3, dims=d, twice=False) for d in ('c-', '-c', 'i-', '-i', 'ic', 'ci')] + [dict(api='class', nd=3, dims=d, twice=True) for d in (None, 'ctor')] + [dict(api='function', nd=nd, dims=None, twice=False) for nd in (1, 3)])
units('C14', era, 'ERA of integers', [dict(api='class', nd=3, dims=None, twice=False, type='int'), dict(api='function', nd=3, dims=None, twice=False, type='int')])
units('C14', era, 'ERA of complex numbers', [dict(api=a, dims=None, nd=3, twice=False, type='complex') for a in ('class', 'function')])
units('C14', sampled, 'make_sampled_format of complex numbers', [dict(even=True, short=False, tol=False, type='complex')])
units('C14', sampled, 'make_sampled_format of integers', [dict(even=True, short=False, tol=False, ints=True), dict(even=True, short=False, tol=False, type='int')])
