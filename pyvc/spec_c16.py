from common import *

RAISE = object()


def chunk_list(c, name, n, q, p, dtype='complex'):
    """a list of n blocks of q rows and p columns"""
    f = z3.Function('blocks_' + name, z3.IntSort(), z3.IntSort(), z3.IntSort(), V.Num)
    bufs = {}

    def at(k):
        buf = V.Buf(name, True)
        return Arr((q, p), elem=lambda s, t: SNum(f(z(k), z(s), z(t))), buf=buf, dtype=dtype)
    r = SList(n, at, name=name)
    c.run.frozen_lists[id(r)] = (r, name)
    return r, f


def vector(c, name, n, two, dtype='complex'):
    """a 1D array, or the same as an n x 1 (1 x n) array"""
    f = z3.Function('vec_' + name, z3.IntSort(), V.Num)
    buf = V.Buf(name, True)
    if two == 'col':
        return Arr((n, 1), elem=lambda i, j: SNum(f(z(i))), buf=buf, dtype=dtype), f
    if two == 'row':
        return Arr((1, n), elem=lambda i, j: SNum(f(z(j))), buf=buf, dtype=dtype), f
    return Arr((n,), elem=lambda i: SNum(f(z(i))), buf=buf, dtype=dtype), f


def is_zero(c, v, name):
    v = z(v)
    if v.sort() == V.Num:
        c.prove(v == z3.Function('num', z3.RealSort(), V.Num)(z3.RealVal(0)), name)
    else:
        c.prove(v == 0, name)


def entry(c, v, want, name):
    c.prove(z(V.compare('==', v if isinstance(v, (SNum, int, float)) else SNum(v), SNum(want))), name)


def hankel(I, c, run):
    a, b = c.int_('len_col', 1), c.int_('len_row', 1)
    col, fc = vector(c, 'first_col', a, 'col' if run.cfg['two'] else None, run.cfg.get('col', 'complex'))
    args = [col]
    if run.cfg['row']:
        row, fr = vector(c, 'last_row', b, 'row' if run.cfg['two'] else None, run.cfg.get('lrow', 'complex'))
        args.append(row)
    else:
        b = a
    r = I.call(I.module('util').env['Hankel'], args, {})
    prove_shape(c, r, (a, b), 'one row per entry of the column, one column per entry of the row')
    i, j = c.int_('i', 0), c.int_('j', 0)
    c.assume(z3.And(i.t < a.t, j.t < b.t))
    k = z3.simplify(i.t + j.t)
    v = elem(r)(i.t, j.t)
    if c.decide(k < a.t):
        entry(c, v, fc(k), 'entry (i, j) is entry i+j of the first column')
    elif run.cfg['row']:
        entry(c, v, fr(z3.simplify(k - a.t + 1)), 'entry (i, j) is entry i+j of the column followed by the row without its first entry')
    else:
        is_zero(c, v, 'zero below the antidiagonal without a row')
    no_mutation(c, run)


def chunks(I, c, run):
    a, b, q, p = c.int_('row_blocks', 1), c.int_('col_blocks', 1), c.int_('q', 1), c.int_('p', 1)
    col, fc = chunk_list(c, 'first_col_chunks', a, q, p, run.cfg.get('col', 'complex'))
    args = [col]
    if run.cfg['row']:
        row, fr = chunk_list(c, 'last_row_chunks', b, q, p, run.cfg.get('lrow', 'complex'))
        args.append(row)
    else:
        b = a
    r = I.call(I.module('util').env['Hankel_chunks'], args, {})
    if r.blocks is None:
        raise Unsupported('block structure of the result')
    nb, size = r.blocks['nb'], r.blocks['size']
    c.prove(z3.And(z(nb[0]) == a.t, z(nb[1]) == b.t), 'one block row per block of the column, one block column per block of the row')
    c.prove(z3.And(z(size[0]) == q.t, z(size[1]) == p.t), 'blocks keep their shape')
    i, j, s, t = (c.int_(x, 0) for x in 'ijst')
    c.assume(z3.And(i.t < a.t, j.t < b.t, s.t < q.t, t.t < p.t))
    v = r.blocks['at'](i, j)(s.t, t.t)
    k = z3.simplify(i.t + j.t)
    if c.decide(k < a.t):
        entry(c, v, fc(k, s.t, t.t), 'block (i, j) is block i+j of the first column')
    elif run.cfg['row']:
        entry(c, v, fr(z3.simplify(k - a.t + 1), s.t, t.t), 'block (i, j) is block i+j of the column followed by the row without its first block')
    else:
        is_zero(c, v, 'zero blocks without a row')
    no_mutation(c, run)


units('C16', hankel, 'Hankel', [dict(row=r, two=t) for r in (True, False) for t in (False, True)])
units('C16', chunks, 'Hankel_chunks', [dict(row=r) for r in (True, False)])
TYPES = [dict(row=True, col=a, lrow=b) for a, b in (('int', 'real'), ('real', 'int'), ('int', 'int'), ('real', 'complex'), ('int', 'complex'))]
units('C16', hankel, 'Hankel of mixed types', [dict(t, two=False) for t in TYPES])
units('C16', chunks, 'Hankel_chunks of mixed types', TYPES)
