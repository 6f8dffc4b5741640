"""C03: the array of inner products of a collection with itself."""
import os
from common import *
from ring import *
from spec_c02 import Products, WORLDS, reach, space


class Symmetric(Products):
    case = None

    def written(self, table, a, b, v):
        c = self.c
        if not c.valid(z3.And(z(table.shape[0]) == z(self.A.n), z(table.shape[1]) == z(self.A.n))):
            raise Unsupported('shape of the array of inner products')
        if not isinstance(v, Cx) or v.of is None:
            raise Unsupported('value of an entry')
        if self.run.cfg.get('deep') is not None:
            if c.valid(z3.Or(z3.And(a == self.i, b == self.j), z3.And(a == self.j, b == self.i))):
                raise PathDone()
            return
        e = self.ip.value(self.A, a, self.A, b)
        c.prove(z3.And(v.re == e.re, v.im == e.im), 'an entry is the inner product of its row and column vectors')
        self.owned(table, a, b)

    def owned(self, table, a, b):
        """rows are divided in parts by the outermost loop, and each part among the workers: one worker has each row"""
        c = self.c
        if not self.open:
            raise Unsupported('an entry outside the loops')
        L = self.open[0]
        g = z(L['i'])
        for k in self.cuts:
            if not c.valid(z3.And(k.lo(z(self.r)) <= a, a < k.hi(z(self.r)))):
                continue
            if k.loops == [] or c.valid(z3.And(k.base == 0, k.n == z(self.A.n))):
                return
            for p, q in self.products:
                if p.eq(g) and self.uniform(q) and 'it' not in str(q) and c.valid(z3.And(k.base == self.mul(p, q), k.n <= q, q >= 1)):
                    return
            if z3.is_int_value(k.base):
                return
        if os.environ.get('RING_DEBUG'):
            for k in self.cuts:
                print('CUT', k, c.valid(z3.And(k.lo(z(self.r)) <= a, a < k.hi(z(self.r)))), k.loops, g, self.products)
        c.prove(z3.BoolVal(False), 'an entry is computed by one worker: the one that has its row')

    def filled(self, table):
        c = self.c
        if self.run.cfg.get('deep') is not None:
            self.missed('the loops end')
        B = z3.BoolSort()
        mine, done = z3.Function('mine', I_, I_, B), z3.Function('done', I_, I_, B)

        def entry(i, j):
            c.assume(z3.Implies(z(self.P) == 1, mine(i, j)))
            x = self.pair(i, j)
            return where(z3.And(mine(i, j), done(i, j)), x)
        table.entry, table.state = entry, 'own'
        table.done = done

    def pair(self, i, j):
        # one of the two entries of each pair is computed (units "every pair is computed")
        done = z3.Function('done', I_, I_, z3.BoolSort())
        self.c.assume(z3.Or(done(i, j), done(j, i)))
        return self.ip.value(self.A, i, self.A, j)

    def reduced(self, table):
        if table.state != 'own':
            raise Unsupported('allreduce of an array that is not filled')
        done = table.done
        return Table(table.shape, lambda i, j: where(done(i, j), self.pair(i, j)), 'expr')

    # coverage
    def on_cut(self, k):
        c = self.c
        if self.run.cfg.get('deep') is None or self.case is not None:
            return
        if not c.valid(z3.And(k.base <= self.i, self.i < k.base + k.n)):
            return
        case = self.case = self.run.cfg['case']
        o = k.owner(self.i)
        if case == 'later columns':
            c.assume(self.j >= k.base + k.n)
            c.assume(z(self.r) == o)
            return
        c.assume(z3.And(k.base <= self.j, self.j < k.base + k.n))
        p = k.owner(self.j)
        if case in ('diagonal', 'same worker'):
            c.assume(p == o)
            c.assume(self.i == self.j if case == 'diagonal' else self.i < self.j)
            c.assume(z(self.r) == o)
        else:
            c.assume(o != p)
            c.assume(z(self.r) == (o if c.choose(['row', 'column']) == 'row' else p))
            self.pending_case = (o, p)

    def filtered(self, I, e, fr, it):
        s = Products.filtered(self, I, e, fr, it)
        if getattr(self, 'pending_case', None) is not None and self.active is not None:
            o, p = self.pending_case
            self.mention(o)
            self.mention(p)
            # of the two orders of the pair, the one in which the first worker is at most half way round from the other
            d = self.cyclic(o, p, z(self.active))
            self.c.assume(2 * d <= z(self.active))
            self.pending_case = None
        return s


def setup3(I, c, run):
    W = Symmetric(I, c, run, run.cfg['mpi'])
    I.module('parallel')
    o = space(I, c, run, W)
    one = run.cfg.get('one')
    W.A = Coll('vecs', 1 if one else c.int_('num_vecs', 1))
    return W, o, [Handle(W.A, z3.IntVal(0)) if one else W.A.list]


def products(I, c, run):
    W, o, args = setup3(I, c, run)
    ret = I.call(I.getattr(o, 'compute_symm_inner_product_array'), args, {})
    W.record(None, False)
    if not isinstance(ret, Table):
        raise Unsupported('value returned')
    i, j = z3.Int('i'), z3.Int('j')
    c.prove(z3.And(z(ret.shape[0]) == z(W.A.n), z(ret.shape[1]) == z(W.A.n)), 'shape of the array')
    c.assume(z3.And(0 <= i, i < z(W.A.n), 0 <= j, j < z(W.A.n)))
    e, s = ret.read()(i, j), W.ip.value(W.A, i, W.A, j)
    c.prove(z3.And(e.re == s.re, e.im == s.im), 'entry i, j of the array is the inner product of vectors i and j, on every worker')
    run.obligation(c, 'no vector is modified', not c.mutated, 'frame', 0, 'modified: %s' % c.mutated, None)


def reach3(I, c, run):
    W, o, args = setup3(I, c, run)
    i, j = z3.Int('i'), z3.Int('j')
    c.assume(z3.And(0 <= i, 0 <= j, i < z(W.A.n), j < z(W.A.n)))
    W.i, W.j = i, j
    W.targets = (('i', i), ('j', j))
    I.call(I.getattr(o, 'compute_symm_inner_product_array'), args, {})
    W.missed('the function ends')


units('C03', products, 'symmetric inner products', [dict(w, one=o) for w in WORLDS for o in (None, 'single')])
units('C03', reach(reach3, 'every pair is computed', products), 'every pair is computed', [dict(w, case=k) for w in WORLDS for k in ('diagonal', 'same worker', 'different workers', 'later columns') if w['mpi'] or k != 'different workers'])
