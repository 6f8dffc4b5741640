"""C04: linear combinations of handles."""
import os
from common import *
from ring import *
from spec_c02 import Pinned, WORLDS, reach, space


class Coef(object):
    """entry of the coefficient array as it was given: row i, column j"""
    def __init__(self, i, j):
        self.i, self.j = z3.simplify(i), z3.simplify(j)

    def sym_np(self, I, name, args, kw):
        if name in ('abs', 'absolute', 'fabs', 'real', 'imag', 'isnan', 'isfinite'):
            return Function(name, self.i, self.j)
        raise Unsupported('NumPy function of a coefficient')

    def sym_compare(self, I, o, a, b):
        return Function('coef', self.i, self.j).sym_compare(I, o, a, b) if not isinstance(a, type(b)) else NotImplemented

    def sym_truth(self, I):
        return self.sym_compare(I, '!=', self, 0)

    def sym_abs(self):
        return Function('abs', self.i, self.j)


class Function(object):
    """a number that depends on a coefficient"""
    def __init__(self, name, i, j):
        self.name, self.i, self.j = name, i, j

    def sym_compare(self, I, o, a, b):
        k = b if a is self or isinstance(a, Coef) else a
        if not isinstance(k, (int, float)):
            raise Unsupported('comparison of a coefficient')
        if o == '!=':
            return mkbool(z3.Not(self.sym_compare(I, '==', a, b).t))
        f = z3.Function('%s %s %s' % (self.name, o, k), I_, I_, z3.BoolSort())
        return SBool(f(self.i, self.j))

    def sym_truth(self, I):
        return self.sym_compare(I, '!=', self, 0)


class CArr(object):
    """a view or copy of the coefficient array"""
    def __init__(self, shape, at):
        self.shape, self.at = shape, at

    def sym_np(self, I, name, args, kw):
        if name in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'copy') and len(args) == 1 and not [k for k in kw if k != 'copy']:
            return self
        if name == 'atleast_2d' and len(args) == 1:
            return self if len(self.shape) == 2 else CArr((1,) + self.shape, lambda i, j: self.at(j))
        if name == 'transpose' and len(args) == 1 and not kw:
            return self.sym_getattr(I, 'T')
        if name == 'atleast_1d' and len(args) == 1:
            return self
        if name == 'ndim':
            return len(self.shape)
        if name == 'shape':
            return self.shape
        raise Unsupported('%s of the coefficients' % name)

    def sym_getattr(self, I, attr):
        if attr == 'ndim':
            return len(self.shape)
        if attr == 'shape':
            return self.shape
        if attr == 'T':
            return self if len(self.shape) < 2 else CArr(self.shape[::-1], lambda i, j: self.at(j, i))
        if attr == 'copy':
            return Native('copy', lambda: self)
        raise Unsupported('attribute %s of the coefficients' % attr)

    def sym_len(self):
        return self.shape[0]

    def sym_setitem(self, I, k, v):
        ctx().mutated.append('the coefficients')

    def sym_inplace(self, I, op, v):
        ctx().mutated.append('the coefficients')
        raise Unsupported('in-place operator on the coefficients')

    def sym_getitem(self, I, k):
        k = k if isinstance(k, tuple) else (k,)
        k = k + (slice(None),) * (len(self.shape) - len(k))
        if len(k) != len(self.shape):
            raise PyRaise(IndexError, ('too many indices',))
        shape, maps = [], []
        for x, n in zip(k, self.shape):
            if isinstance(x, slice):
                if not V.is_full_slice(x):
                    raise Unsupported('slice of the coefficients')
                maps.append(len(shape))
                shape.append(n)
            elif isinstance(x, (int, SNum)) and not isinstance(x, bool):
                maps.append(lambda x=z(V.norm_index(x, n)): x)
            elif isinstance(x, (Selection, SList)):
                m, at = I.seq(x)

                def col(i, at=at, n=n):
                    t = z(at(SNum(i)))
                    return z3.simplify(z3.If(t < 0, t + z(n), t))
                maps.append((len(shape), col))
                shape.append(m)
            else:
                raise Unsupported('index of the coefficients')
        if sum(isinstance(m, tuple) for m in maps) > 1:
            raise Unsupported('index of the coefficients')

        def at(*idx):
            out = []
            for m in maps:
                out.append(m() if callable(m) else m[1](idx[m[0]]) if isinstance(m, tuple) else idx[m])
            return self.at(*out)
        return CArr(tuple(shape), at) if shape else at()


class Selection(object):
    """an integer array of column numbers"""
    def __init__(self, m, f):
        self.m, self.f = m, f

    def sym_len(self):
        return self.m

    def sym_seq(self, I):
        return self.m, self.at

    def at(self, i):
        t = self.f(z(i))
        ctx().assume(z3.Implies(z3.And(0 <= z(i), z(i) < z(self.m)), z3.And(-self.cols <= t, t < self.cols)))
        return SNum(t)

    def sym_np(self, I, name, args, kw):
        if name in ('array', 'asarray', 'atleast_1d', 'ravel') and len(args) == 1:
            return self
        raise Unsupported('%s of the column numbers' % name)

    def sym_getattr(self, I, attr):
        if attr == 'ndim':
            return 1
        if attr in ('size', 'shape'):
            return self.m if attr == 'size' else (self.m,)
        raise Unsupported('attribute %s of the column numbers' % attr)


class Sums(Pinned):
    refuse = False
    target = None

    def terms(self, v):
        v = v if isinstance(v, Lin) else None
        if v is None or len(v.terms) != 1 or not isinstance(v.terms[0][0], Coef) or v.terms[0][1].coll is not self.B:
            raise Unsupported('what is added to a sum')
        return v.terms[0]

    def places(self, cells):
        """the numbers of sums a list of sums may stand for: first number"""
        for k in self.cuts:
            if not self.c.valid(z3.And(k.base == 0, k.n == z(self.S.n))):
                continue
            for L in self.open:
                for wd in self.widths_known():
                    yield ('part', self.level_name(z(L['i'])), str(wd)), Chunk(k, z(L['i']), wd)
            yield ('all',), Chunk(k)

    def widths_known(self):
        out = []
        for num, den, up, q in self.roundings:
            if up and not any(den.eq(d) for d in out):
                out.append(den)
        return out

    def place(self, cells, ok):
        """the chunk of sums that a list of sums stands for: the same on all paths"""
        c = self.c
        key = ('cells', cells.line)
        known = self.remembered(key)
        for name, ch in self.places(cells):
            if known and known != [name]:
                continue
            lo, hi = ch.lo(z(self.r)), ch.hi(z(self.r))
            if c.valid(z(cells.n) == hi - lo) and (known or ok(lo)):
                if not known:
                    self.remember(key, name)
                return ch
        return None

    def added(self, cells, k, v):
        c = self.c
        if not self.muted and cells.state not in ('filling', 'new'):
            raise Unsupported('sums changed after they are filled')
        if not self.open:
            raise Unsupported('sums outside a loop')
        if isinstance(v, Added):
            c.prove(v.cell.k == k if v.cell.cells is cells else z3.BoolVal(False), 'a term is added to the sum it is stored as')
            v = v.v
        else:
            c.prove(sym_none(cells, k), 'no partial sum is lost')
        if self.muted:
            return
        q, vec = self.terms(v)
        j = z3.simplify(vec.i)
        ch = self.place(cells, lambda lo: c.valid(self.right(q, j, z3.simplify(lo + k))))
        if ch is None:
            c.prove(z3.BoolVal(False), 'a term is added to the sum of its column')
        s = z3.simplify(ch.lo(z(self.r)) + k)
        if self.run.cfg.get('deep') is not None:
            if self.run.cfg['what'] == 'term' and c.valid(z3.And(s == self.s, j == self.j)):
                raise PathDone()
            return
        c.prove(self.right(q, j, s), 'the coefficient of a term is that of its basis vector and of the column of its sum')
        self.once((('s', s), ('j', j)), 'term')

    def put(self, I, h, v):
        c = self.c
        if self.refuse:
            c.prove(z3.BoolVal(False), 'nothing is put when the arguments do not fit')
        if h.coll is not self.S:
            c.prove(z3.BoolVal(False), 'nothing is put into the handles of the basis')
        if not isinstance(v, Cell):
            raise Unsupported('what is put into a handle')
        if self.muted:
            raise Unsupported('a handle is written during an exchange')
        if not self.open:
            raise Unsupported('a handle is written outside the loops')
        c.prove(z3.BoolVal(v.cells.state == 'full'), 'a sum is complete when it is put')
        s, k = z3.simplify(z(h.i)), z3.simplify(v.k)
        ch = self.place(v.cells, lambda lo: c.valid(s == lo + k))
        if ch is None:
            c.prove(z3.BoolVal(False), 'a handle receives the sum of its column')
        if self.run.cfg.get('deep') is not None:
            if self.run.cfg['what'] == 'put' and c.valid(s == self.s):
                raise PathDone()
            return
        c.prove(s == ch.lo(z(self.r)) + k, 'a handle receives the sum of its column')
        self.once((('s', s),), 'put')

    def once(self, targets, what):
        """the iterations of all loops are determined by what is dealt with, and so is the worker"""
        c = self.c
        s = targets[0][1]
        k = self.find(0, z(self.S.n))
        if k is None:
            raise Unsupported('the sums are not divided by find_assignments')
        c.prove(z3.And(k.lo(z(self.r)) <= s, s < k.hi(z(self.r))), 'a sum is computed and put by the worker that has it')
        for n, L in enumerate(self.open):
            key = ('once', what, L['line'])
            known = self.remembered(key)
            ring = self.mpi and c.valid(z(L['n']) == z(self.P))
            self.open, rest = self.open[:n], self.open[n:]
            found = None
            try:
                for nm, t in self.pins(z(L['n']), L['at'], targets, ring):
                    if known and nm not in known:
                        continue
                    if c.valid(z(L['i']) == t):
                        found = nm
                        break
            finally:
                self.open = self.open + rest
            if found is None or len(known) > 1:
                if os.environ.get('RING_DEBUG'):
                    print('ONCE', what, L['line'], known, [(nm, t) for nm, t in self.pins(z(L['n']), L['at'], targets, ring)])
                c.prove(z3.BoolVal(False), 'each %s is dealt with once: in one iteration of the loop at line %s' % (what, L['line']))
            if not known:
                self.remember(key, found)
            self.run.obligation(c, 'each %s is dealt with once: in one iteration of the loop' % what, True, 'z3', 0, '', None)

    def pins(self, n, at, targets, ring):
        for x in self.all_candidates(n, at, targets, ring):
            if self.c.valid(n == 1) or x[1] != 'first':
                yield x[1:]

    def find(self, base, n):
        for k in self.cuts:
            if self.c.valid(z3.And(k.base == base, k.n == n)):
                return k
        return None

    def binop(self, I, op, a, b):
        r = Pinned.binop(self, I, op, a, b)
        if isinstance(r, Cells):
            r.line = self.run.cur
        return r

    # coverage
    def on_cut(self, k):
        c = self.c
        if self.run.cfg.get('deep') is not None and not getattr(self, 'placed', False) and c.valid(z3.And(k.base == 0, k.n == z(self.S.n))):
            self.placed = True
            c.assume(z(self.r) == k.owner(self.s))


def sym_none(cells, k):
    if cells.state == 'new':
        return z3.BoolVal(True)
    for x, b in cells.none:
        if x.eq(k):
            return b
    return z3.BoolVal(False)


def setup4(I, c, run, fit=True):
    W = Sums(I, c, run, run.cfg['mpi'])
    par = I.module('parallel')
    o = space(I, c, run, W)
    one, dim, sel = run.cfg.get('one'), run.cfg.get('dim', 2), run.cfg.get('sel', 'none')
    W.B = Coll('basis', 1 if one in ('basis', 'both') else c.int_('num_bases', 1))
    W.S = Coll('sums', 1 if one in ('sums', 'both') else c.int_('num_sums', 1))
    nb, ns = z(W.B.n), z(W.S.n)
    n0 = c.int_('num_coefficient_rows', 0)
    n1 = c.int_('num_coefficient_cols', 0)
    if dim == 2:
        C = CArr((n0, n1), lambda i, j: Coef(i, j))
        rows, cols = n0.t, n1.t
    else:
        C = CArr((n0,), lambda i: Coef(i, i))
        rows, cols = z3.If(nb == 1, 1, n0.t), z3.If(nb == 1, n0.t, 1)
    f = z3.Function('selected', I_, I_)
    kw = {}
    m = x = None
    if sel == 'array':
        m = c.int_('num_selected', 0)
        x = Selection(m, f)
    elif sel == 'list':
        m = c.int_('num_selected', 0)
        s = Selection(m, f)
        s.cols = cols
        x = SList(m, lambda i: s.at(i), name='columns')
        run.frozen_lists[id(x)] = (x, 'columns')
    elif sel == 'int':
        m = SNum(z3.IntVal(1))
        x = SNum(f(0))
        c.assume(z3.And(-cols <= f(0), f(0) < cols))
    if m is not None:
        kw = {'coeff_array_col_indices': x}
    num = cols if m is None else m.t
    norm = lambda s: s if m is None else z3.If(f(s) < 0, f(s) + cols, f(s))
    W.right = lambda q, j, s: z3.And(q.i == j, q.j == norm(s)) if dim == 2 else z3.If(nb == 1, q.i == norm(s), q.i == j)
    if isinstance(x, Selection):
        x.cols = cols
    fits = z3.And(nb == rows, ns == num)
    c.assume(fits if fit else z3.Not(fits))
    W.refuse = not fit
    args = [Handle(W.S, z3.IntVal(0)) if one in ('sums', 'both') else W.S.list, Handle(W.B, z3.IntVal(0)) if one in ('basis', 'both') else W.B.list, C]
    return W, o, args, kw


def combine(I, c, run):
    W, o, args, kw = setup4(I, c, run)
    ret = I.call(I.getattr(o, 'lin_combine'), args, kw)
    W.record(None, False)
    run.obligation(c, 'no vector and no argument is modified', not c.mutated, 'frame', 0, 'modified: %s' % c.mutated, None)


def refuse(I, c, run):
    W, o, args, kw = setup4(I, c, run, False)
    try:
        I.call(I.getattr(o, 'lin_combine'), args, kw)
    except PyRaise as e:
        run.obligation(c, 'arguments that do not fit are refused with ValueError', e.etype is ValueError, 'z3', 0, 'raises %s' % e, None)
        run.obligation(c, 'no communication before a refusal', not [x for x in W.skel if x[0] != 'loop'], 'frame', 0, '', None)
        return
    c.prove(z3.BoolVal(False), 'arguments that do not fit are refused')


def reach4(I, c, run):
    W, o, args, kw = setup4(I, c, run)
    s, j = z3.Int('s'), z3.Int('j')
    c.assume(z3.And(0 <= s, 0 <= j, s < z(W.S.n), j < z(W.B.n)))
    W.s, W.j = s, j
    W.targets = (('s', s),) if run.cfg['what'] == 'put' else (('s', s), ('j', j))
    I.call(I.getattr(o, 'lin_combine'), args, kw)
    W.missed('the function ends')


CFG = [dict(), dict(sel='array'), dict(sel='list'), dict(sel='int'), dict(dim=1), dict(one='basis'), dict(one='sums'), dict(one='both', dim=1)]
units('C04', combine, 'linear combinations', [dict(k, **w) for w in WORLDS for k in CFG])
units('C04', refuse, 'refusal', [dict(k, **w) for w in WORLDS for k in CFG])
units('C04', reach(reach4, 'every term is added', combine), 'every term is added', [dict(k, what='term', **w) for w in WORLDS for k in CFG])
units('C04', reach(reach4, 'every sum is put', combine), 'every sum is put', [dict(k, what='put', **w) for w in WORLDS for k in CFG])
