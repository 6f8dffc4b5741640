"""C02, C03, C04: the inner products and linear combinations of handles (vectorspace.VectorSpaceHandles), for any number
of workers, vectors and any limit on the vectors in memory."""
from common import *
import run as RUN
from ring import *
import os


class Pinned(World):
    """coverage: loops are executed in the iteration in which the target is dealt with"""
    targets = ()
    choices = None

    def pin(self, st, it, n, at):
        if self.run.cfg.get('deep') is None:
            return NotImplemented
        c = self.c
        c.check_feasible()
        cand = []
        for name, t in self.candidates(n, at, self.targets, self.mpi and c.valid(z(n) == z(self.P))):
            if c.valid(z3.And(0 <= t, t < z(n))):
                cand.append((name, t))
        deep = any(isinstance(x, (Table, Cells)) for x in self.stored(self.I, st.body, self.frame)) or self.run.cfg['deep'](st)
        opts = cand + [('skip', None)] if deep else [('skip', None)] + cand
        best = self.run.best.get(st.lineno)
        opts.sort(key=lambda o: o[0] != best)
        nm = c.choose([o[0] for o in opts])
        t = dict(opts)[nm]
        self.run.last[st.lineno] = nm
        self.run.chosen.append('%d: %s' % (st.lineno, nm))
        return t

    def missed(self, why):
        self.run.missed.append(why)
        raise PathDone()

    def loop(self, I, st, fr, it):
        self.frame = fr
        return World.loop(self, I, st, fr, it)

    def end_body(self, L):
        if self.run.cfg.get('deep') is not None:
            self.missed('the loop body at line %d ends' % L['line'])

    # ------------------------------------------------------------ iterations that targets determine
    def candidates(self, n, at, targets, ring):
        """(name, iteration) of a loop"""
        out = list(self.all_candidates(n, at, targets, ring))
        best = [x for x in out if x[0] == 1] or [x for x in out if x[0] == 2] or out
        return [x[1:] for x in best]

    def all_candidates(self, n, at, targets, ring):
        c = self.c
        i = z3.Int(c.fresh('position'))
        if c.valid(z(n) == 1):
            yield 1, 'first', z3.IntVal(0)
            return
        for tn, x in targets:
            for q, pos in enumerate(self.positions(at, i, n)):
                lo = z3.simplify(z3.substitute(pos, (i, z3.IntVal(0))))
                self.laws(lo)
                if c.valid(pos == lo + i):
                    t = z3.simplify(x - lo)
                    if c.valid(z3.And(0 <= t, t < z(n))):
                        yield (3 if z3.is_int_value(lo) and lo.as_long() == 0 else 1), '%s[%d]' % (tn, q), t
                else:
                    d = self.stride(pos, i, lo)
                    if d is not None:
                        yield 1, '%s[%d] of step' % (tn, q), self.quotient(x - lo, d)
            if ring:
                for k in self.cuts:
                    o = k.owner(x)
                    if o is not None:
                        yield 1, 'pass of %s' % tn, self.cyclic(z(self.r), o, z(self.P))
        if ring:
            return
        for tn, x in targets:
            for k in self.cuts:
                o = k.owner(x)
                if o is None:
                    continue
                for den in self.widths_of(n):
                    yield 2, 'part of %s by %s' % (tn, den), self.quotient(x - k.lo(o), den)
                for m in ([self.active] if self.active is not None else []):
                    yield 2, 'distance of %s' % tn, z3.simplify(self.cyclic(z(self.r), o, m) - 1)

    def widths_of(self, n):
        """the widths of the parts that a loop counts, if its number of iterations is a quotient rounded up"""
        out = []
        for num, den, up, q in self.roundings:
            if up and z(q).eq(z(n)) and not any(den.eq(d) for d in out):
                out.append(den)
        return out or [z3.IntVal(1)]

    def positions(self, at, i, n):
        """the integer positions (task numbers, vector and handle numbers) in item i"""
        def flat(e):
            if isinstance(e, tuple):
                for x in e:
                    for y in flat(x):
                        yield y
            elif isinstance(e, (HVec, Handle)):
                yield z(e.i)
            elif isinstance(e, SNum) and e.is_int:
                yield e.t
        k = len(self.c.taken)
        out = self.under(z3.And(0 <= i, i < z(n)), lambda: list(flat(at(SNum(i)))))
        if len(self.c.taken) != k:
            raise Unsupported('item of a list')
        return out or []

    def stride(self, pos, i, lo):
        for num, den, up, q in self.roundings:
            t = self.mul(i, den)
            if self.c.valid(z3.substitute(pos, (t, z3.IntVal(0))) == lo) and len(apps(pos, self.mul)):
                return den
        return None

    def quotient(self, x, den):
        q = self.rounded(z3.simplify(x), den, False)
        return z(q)

    def cyclic(self, a, b, m):
        """(a - b) mod m, for 0 <= a, b < m"""
        x = a - b if self.run.cfg.get('sign', -1) < 0 else b - a
        return z3.If(x < 0, x + m, x)


def space(I, c, run, W):
    """a VectorSpaceHandles as its constructor leaves it (established in the unit 'constructor')"""
    par, vs = I.module('parallel'), I.module('vectorspace')
    o = Obj(vs.env['VectorSpaceHandles'])
    M = c.int_('max_vecs_per_proc', 3)
    node = c.int_('max_vecs_per_node', 1)
    nodes = I.call(par.env['get_num_nodes'], [], {})
    c.assume(W.product(node.t, z(nodes)) >= 3 * z(W.P))
    for k, v in dict(inner_product=W.ip, max_vecs_per_proc=M, max_vecs_per_node=node, verbosity=c.int_('verbosity', 0), print_interval=Noise(), prev_print_time=Noise()).items():
        o.attrs[k] = v
    return o


def orient(c, table, A, B):
    """the collections of the rows and columns of a table"""
    for x, y in ((A, B), (B, A)):
        if c.valid(z3.And(z(table.shape[0]) == z(x.n), z(table.shape[1]) == z(y.n))):
            return x, y
    raise Unsupported('shape of the array of inner products')


class Products(Pinned):
    def written(self, table, a, b, v):
        c = self.c
        X, Y = orient(c, table, self.A, self.B)
        if not isinstance(v, Cx) or v.of is None:
            raise Unsupported('value of an entry')
        if self.run.cfg.get('deep') is not None:
            if c.valid(z3.And(a == self.i, b == self.j)):
                raise PathDone()
            return
        e = self.ip.value(X, a, Y, b)
        c.prove(z3.And(v.re == e.re, v.im == e.im), 'an entry is the inner product of its row and column vectors')
        self.owned(table, a, b)

    def owned(self, table, a, b):
        c = self.c
        k = self.find(0, z(table.shape[0]))
        ok = k is not None and c.valid(z3.And(k.lo(z(self.r)) <= a, a < k.hi(z(self.r))))
        if not ok:
            k2 = self.find(0, z(table.shape[1]))
            if k2 is not None and c.valid(z3.And(k2.lo(z(self.r)) <= b, b < k2.hi(z(self.r)))):
                raise Unsupported('columns divided among the workers')
            if k is None:
                raise Unsupported('rows are not divided by find_assignments')
            c.prove(z3.And(k.lo(z(self.r)) <= a, a < k.hi(z(self.r))), 'an entry is computed by one worker: the one that has its row')

    def find(self, base, n):
        for k in self.cuts:
            if self.c.valid(z3.And(k.base == base, k.n == n)):
                return k
        return None

    def filled(self, table):
        c = self.c
        if self.run.cfg.get('deep') is not None:
            self.missed('the loops end')
        X, Y = orient(c, table, self.A, self.B)
        k = self.find(0, z(table.shape[0]))
        if k is None:
            raise Unsupported('rows are not divided by find_assignments')

        def entry(i, j):
            o = k.owner(z3.simplify(i))
            if o is None:
                raise Unsupported('an entry out of range')
            return where(o == z(self.r), self.ip.value(X, i, Y, j))
        table.entry, table.state, table.cut = entry, 'own', (X, Y)

    def reduced(self, table):
        if table.state != 'own':
            raise Unsupported('allreduce of an array that is not filled')
        X, Y = table.cut
        return Table(table.shape, lambda i, j: self.ip.value(X, i, Y, j), 'expr')


def setup2(I, c, run):
    W = Products(I, c, run, run.cfg['mpi'])
    I.module('parallel')
    o = space(I, c, run, W)
    one = run.cfg.get('one')
    W.A = Coll('rows', 1 if one in ('rows', 'both') else c.int_('num_rows', 1))
    W.B = Coll('cols', 1 if one in ('cols', 'both') else c.int_('num_cols', 1))
    args = [Handle(W.A, z3.IntVal(0)) if one in ('rows', 'both') else W.A.list, Handle(W.B, z3.IntVal(0)) if one in ('cols', 'both') else W.B.list]
    return W, o, args


def products(I, c, run):
    W, o, args = setup2(I, c, run)
    ret = I.call(I.getattr(o, 'compute_inner_product_array'), args, {})
    W.record(None, False)
    if not isinstance(ret, Table):
        raise Unsupported('value returned')
    i, j = z3.Int('i'), z3.Int('j')
    c.prove(z3.And(z(ret.shape[0]) == z(W.A.n), z(ret.shape[1]) == z(W.B.n)), 'shape of the array')
    c.assume(z3.And(0 <= i, i < z(W.A.n), 0 <= j, j < z(W.B.n)))
    e, s = ret.read()(i, j), W.ip.value(W.A, i, W.B, j)
    c.prove(z3.And(e.re == s.re, e.im == s.im), 'entry i, j of the array is the inner product of row vector i and column vector j, on every worker')
    run.obligation(c, 'no vector is modified', not c.mutated, 'frame', 0, 'modified: %s' % c.mutated, None)


def reach2(I, c, run):
    W, o, args = setup2(I, c, run)
    i, j = z3.Int('i'), z3.Int('j')
    c.assume(z3.And(0 <= i, 0 <= j))
    W.i, W.j = i, j
    W.targets = (('i', i), ('j', j))
    # the array may be computed transposed
    z0 = W.I.libs['numpy'].members['zeros']

    def zeros(shape, dtype=None, **k):
        t = z0.f(shape, dtype, **k)
        if isinstance(t, Table):
            c.assume(z3.And(i < z(t.shape[0]), j < z(t.shape[1])))
            k = W.find(0, z(t.shape[0]))
            if k is None:
                raise Unsupported('rows are not divided by find_assignments')
            c.assume(k.owner(i) == z(W.r))
        return t
    W.I.libs['numpy'].members['zeros'] = Native('zeros', zeros)
    I.call(I.getattr(o, 'compute_inner_product_array'), args, {})
    W.missed('the function ends')


def reach(fn, what, safe, deep=lambda st: False):
    """coverage: on every path there are iterations of the loops in which `what` happens"""
    def search(c, run, memory):
        sub = RUN.Run(run.name, fn, dict(run.cfg, deep=deep), run.sources, seconds=60)
        sub.deadline = run.deadline
        if memory is not None:
            sub.ring_memory = memory
        count, why = [0], []
        sub.best = {}

        def explore(prefix, again=None):
            count[0] += 1
            if count[0] > 400:
                raise Unsupported('search for the iterations that deal with an entry')
            sub.missed, sub.chosen, sub.paths = [], [], sub.paths + 1
            nf = len(sub.failed)
            sub.last = {}
            sub.last_chance = len(prefix) > 0 and prefix == again
            p = sub.path(prefix)
            if sub.unsupported:
                raise Unsupported(sub.unsupported[0])
            ok = None if sub.postponed else not sub.missed and len(sub.failed) == nf
            if ok:
                sub.best.update(sub.last)
            elif ok is False:
                why.append('%s %s' % (sub.missed[:1] or sub.failed[-1:], sub.chosen))
            if os.environ.get('RING_DEBUG'):
                print('TRY', sub.chosen, sub.missed, sub.failed[nf:], len(prefix), len(p.taken))
            del sub.failed[nf:]
            t = list(p.taken)
            for pos in reversed(range(len(prefix), len(t))):
                if pos in p.choices:
                    if ok is None:
                        ok = explore(t, t)
                    for alt in p.choices[pos]:
                        if ok:
                            break
                        if alt != t[pos]:
                            ok = explore(t[:pos] + [alt])
                elif ok is None:
                    ok = None if explore(t[:pos] + [not t[pos]]) else False
                elif ok:
                    ok = explore(t[:pos] + [not t[pos]])
            return explore(t, t) if ok is None else ok
        try:
            ok = explore([])
        finally:
            core.set_ctx(c)
            run.solver_time += sub.solver_time
            run.queries += sub.queries
            run.functions |= sub.functions
            run.used_contracts |= sub.used_contracts
            run.assumed |= sub.assumed
            run.paths += sub.paths
        run.obligations.extend(o for o in sub.obligations if o[1])
        run.obligation(c, what, ok, 'z3', 0, None if ok else 'no iterations of the loops deal with it: %s' % why[0], None)

    def f(I, c, run):
        try:
            return search(c, run, None)
        except Unsupported as e:
            if 'the same on every worker' not in str(e) and 'is empty' not in str(e):
                raise
        # what each worker holds, from the run without targets
        pre = RUN.Run(run.name, safe, dict(run.cfg), run.sources, seconds=run.seconds)
        try:
            pre.go()
        finally:
            core.set_ctx(c)
        if pre.unsupported or pre.failed:
            raise Unsupported('what the workers hold: %s' % (pre.unsupported or pre.failed)[0])
        return search(c, run, pre.__dict__.get('ring_memory', {}))
    return f


WORLDS = [dict(mpi=True, world='MPI'), dict(mpi=False, world='noMPI')]
units('C02', products, 'inner products', [dict(w, one=o) for w in WORLDS for o in (None, 'rows', 'cols')])
units('C02', reach(reach2, 'every entry is computed', products), 'every entry is computed', [dict(w, one=o) for w in WORLDS for o in (None, 'rows', 'cols')])


def constructor(I, c, run):
    """what space() takes for granted"""
    W = Products(I, c, run, run.cfg['mpi'])
    par, vs = I.module('parallel'), I.module('vectorspace')
    lim = run.cfg['limit']
    kw = dict(inner_product=W.ip) if lim is None else dict(inner_product=W.ip, max_vecs_per_node=c.int_('max_vecs', 0))
    if run.cfg['quiet']:
        kw['verbosity'] = c.int_('verbosity', 0)
    del run.contracts['vectorspace:VectorSpaceHandles.print_msg']
    o = I.call(vs.env['VectorSpaceHandles'], [], kw)
    nodes = I.call(par.env['get_num_nodes'], [], {})
    M, node = o.attrs['max_vecs_per_proc'], o.attrs['max_vecs_per_node']
    if not all(isinstance(x, (int, SNum)) and z(x).sort() == I_ for x in (M, node)):
        raise Unsupported('limits that are not integers')
    c.prove(z(M) >= 3, 'a worker may have at least three vectors in memory')
    c.prove(W.product(z(node), z(nodes)) >= 3 * z(W.P), 'the nodes together may have three vectors per worker in memory')
    c.prove(z3.BoolVal(o.attrs['inner_product'] is W.ip), 'the inner product is the one given')
    run.obligation(c, 'the constructor does not communicate', not W.skel and not W.pending, 'frame', 0, '', None)
    before = dict(o.attrs)
    I.call(I.getattr(o, 'print_msg'), ['message'], {})
    I.call(I.getattr(o, 'print_msg'), ['message'], dict(output_channel='stderr'))
    run.obligation(c, 'messages do not communicate and change nothing', not W.skel and not W.pending and all(o.attrs.get(k) is v for k, v in before.items()), 'frame', 0, '', None)


for p in ('C02', 'C03', 'C04'):
    units(p, constructor, 'constructor and messages', [dict(w, limit=l, quiet=q) for w in WORLDS for l in (None, 'given') for q in (False, True)])
