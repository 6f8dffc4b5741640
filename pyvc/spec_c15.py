from common import *
import arrays


def signal(c, name, n, m, one_d, dtype='real'):
    f = z3.Function('signal_' + name, z3.IntSort(), z3.IntSort(), V.Num)
    A, nm = V.new_atom(name, n, m)
    c.th.atoms[nm]['real'] = True
    buf = V.Buf(name, True)
    if one_d:
        return Arr((m,), elem=lambda k: SNum(f(z3.IntVal(0), z(k))), poly=T(A), dtype=dtype, buf=buf), f
    return Arr((n, m), elem=lambda i, k: SNum(f(z(i), z(k))), poly=A, dtype=dtype, buf=buf), f


def okid(I, c, run):
    cfg = run.cfg
    p = c.int_('num_inputs', 1) if not cfg['one_u'] else 1
    q = c.int_('num_outputs', 1) if not cfg['one_y'] else 1
    n = c.int_('num_samples', 1)
    N = c.int_('num_Markovs', 1)
    c.assume(N.t <= n.t)
    u, fu = signal(c, 'inputs', p, n, cfg['one_u'], cfg.get('u', 'real'))
    y, fy = signal(c, 'outputs', q, n, cfg['one_y'], cfg.get('y', 'real'))
    M = I.call(I.module('okid').env['OKID'], [u, y, N], {})
    ls = c.run_memo.get('lstsq', [])
    if len(ls) != 1:
        raise Unsupported('least-squares problem')
    A, b, X = ls[0]
    nio = mknum(z(p) + z(q))
    rows = mknum(z(p) + z(nio) * N.t)
    reg = [a for a in c.run_memo.get('filled', []) if a.poly is not None and not c.th.canon(padd(A.poly, H(a.poly), -1))]
    if len(reg) == 1:
        R = reg[0]
    elif not reg and A.elem_ is not None:
        ea = elem(A)
        R = Arr(A.shape_[::-1], elem=lambda i, k: ea(k, i), dtype=A.dtype)
    else:
        raise Unsupported('regression array of unknown structure')
    Y = y.poly if not cfg['one_y'] else T(y.poly)
    prove_shape(c, R, (rows, n), 'one column per sample; one row per input and per input and output of every preceding sample')
    c.prove_mat(b.poly, T(Y), 'the outputs are fitted')
    prove_shape(c, M, (N, q, p), 'one array of outputs by inputs per Markov parameter')
    Z = H(X)
    fam = M.meta.get('family') if isinstance(M, Arr) else None
    one_row = c.valid(N.t <= 1)
    case = c.decide(z3.Bool('regression'))
    if case:
        k = c.int_('k', 0)
        c.assume(k.t < n.t)
        if c.decide(z3.Bool('direct')):
            r = c.int_('r', 0)
            c.assume(r.t < z(p))
            i = z3.IntVal(1)
            arrays.final_entry(c, R, (r.t, k.t), SNum(fu(r.t, k.t)), None, 'first rows are the current inputs', size=((1, nio),))
            return
        i, s = c.int_('i', 1), c.int_('s', 0)
        c.assume(z3.And(i.t <= N.t, s.t < z(nio)))
        r = z3.simplify(z(p) + (i.t - 1) * z(nio) + s.t)
        if c.decide(k.t < i.t):
            arrays.final_entry(c, R, (r, k.t), 0, None, 'inputs and outputs are zero before the start', size=((i.t - 1, nio),))
            return
        want = SNum(fu(s.t, z3.simplify(k.t - i.t))) if c.decide(s.t < z(p)) else SNum(fy(z3.simplify(s.t - z(p)), z3.simplify(k.t - i.t)))
        arrays.final_entry(c, R, (r, k.t), want, (i.t - 1,), 'row group i is the inputs and outputs of i samples before', size=((i.t - 1, nio),))
        return
    # Markov parameters from the solution
    cols = lambda lo, ln: one((('S', V.sel_interval(mknum(z(lo)), mknum(z(lo) + z(ln)), rows), False),))
    c.assume(z(nio) * N.t >= z(nio))
    if not c.decide(N.t > 1):
        hist = M.meta.get('hist') or ()
        ws = [w for w in hist if isinstance(w, arrays.Write)]
        first(c, run, ws, Z, cols, p)
        no_mutation(c, run)
        return
    if fam is None or 'final' not in fam:
        raise Unsupported('recursion')
    ws = [w for w in M.meta['hist'] if isinstance(w, arrays.Write)]
    c.prove(z(fam['first']) == 1, 'the recursion starts at the second Markov parameter')
    first(c, run, ws, Z, cols, p)
    w = fam['final']
    k = fam['target']
    c.prove(z(w.axes[0][1]) == k, 'every iteration gives the Markov parameter of its step')
    if w.whole is None or w.whole.poly is None:
        raise Unsupported('value of the Markov parameter')
    v = w.whole.poly
    sums = c.run_memo.get('sums', {})
    rest, got = {}, []
    for (m, word), co in c.th.canon(v).items():
        if len(word) == 1 and word[0][0] == 'A' and word[0][1] in sums and not m:
            got.append((co, sums[word[0][1]]))
        else:
            rest[(m, word)] = co
    blk = lambda t: z3.simplify(z(p) + (z(t) - 1) * z(nio))
    c.assume(z3.Implies(k + 1 <= N.t, z(nio) * (k + 1) <= z(nio) * N.t))
    c.assume(z3.Implies(k >= 1, z(nio) * k >= z(nio)))
    c.prove_mat(rest, mul(Z, cols(blk(k), p)), 'M[k] = input part k ... ')
    ok = len(got) == 1
    run.obligation(c, '... plus one sum', ok, 'algebra', 0, '%d sums' % len(got), None)
    if not ok:
        return
    co, S = got[0]
    c.prove(z(S.n) == k, 'the sum has k terms')
    # the terms in either order: both are one-to-one onto lags 1..k
    it = S.i.t
    c.assume(z3.And(0 <= it, it < k))
    got = c.th.add({}, S.value.poly, co)

    def term(lv):
        c.assume(z3.Implies(lv + 1 <= N.t, z(nio) * (lv + 1) <= z(nio) * N.t))
        c.assume(z3.Implies(lv >= 1, z(nio) * lv >= z(nio)))
        prev = arrays.family_any(fam, M, z3.simplify(k - lv))
        return mul(Z, cols(z3.simplify(blk(lv) + z(p)), q), prev.poly)
    lag, want = z3.simplify(it + 1), None
    for lv in (z3.simplify(it + 1), z3.simplify(k - it)):
        t = term(lv)
        if want is None:
            want = t
        if c.mat_zero(c.th.add(got, t, Fr(-1)))[0]:
            lag, want = lv, t
            break
    c.prove(z3.And(1 <= lag, lag <= k), 'the terms are i = 1..k')
    c.prove_mat(got, want, 'term i is output part i times M[k-i]')
    no_mutation(c, run)


def first(c, run, ws, Z, cols, p):
    ok = [w for w in ws if w.axes[0][0] == 'int' and c.valid(z(w.axes[0][1]) == 0)]
    if len(ok) != 1 or ok[0].whole is None or ok[0].whole.poly is None:
        raise Unsupported('first Markov parameter')
    c.prove_mat(ok[0].whole.poly, mul(Z, cols(0, p)), 'M[0] is the direct term')


def lengths(I, c, run):
    n, m = c.int_('num_samples', 1), c.int_('other_num_samples', 1)
    c.assume(n.t != m.t)
    u, fu = signal(c, 'inputs', c.int_('num_inputs', 1), n, False)
    y, fy = signal(c, 'outputs', c.int_('num_outputs', 1), m, False)
    try:
        I.call(I.module('okid').env['OKID'], [u, y, c.int_('num_Markovs', 1)], {})
    except PyRaise as e:
        run.obligation(c, 'signals of different lengths are refused', e.etype is ValueError, 'frame', 0, str(e), None)
        no_mutation(c, run)
        return
    run.obligation(c, 'signals of different lengths are refused', False, 'frame', 0, 'accepted', None)


units('C15', okid, 'OKID', [dict(one_u=a, one_y=b) for a, b in ((False, False), (True, False), (False, True), (True, True))])
units('C15', okid, 'OKID of integer signals', [dict(one_u=False, one_y=False, u=a, y=b) for a, b in (('int', 'real'), ('real', 'int'), ('int', 'int'))])
units('C15', lengths, 'OKID lengths', [{}])
